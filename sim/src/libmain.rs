//! The same job as the command line tool's, done by a program written against the library, as in
//! /repo/examples: sources from an input factory, a graph, a driver. Options are read with chopper's
//! own argument definitions; what they mean for the library calls is decided here.
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, Header, TimestampRange};
use chopper::cli::util::YesNoAuto;
use chopper::cli_app::CliApp;
use chopper::driver::{driver::Driver, merge_join::MergeJoin};
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::{create_default_seekable_transports, create_default_source_factories, create_default_streaming_transports, InputFactory};
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::csv_configs::{CSVInputConfig, CSVOutputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::source::multi_file_source::SerialMultiFileSource;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::tz::ChopperTz;
use chopper::write::factory;
use chrono_tz::Tz;
use clap::{value_t, ArgMatches};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::PathBuf;

/// how the program around the library sets things up
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Lib {
    /// inputs are named by path only
    pub by_path: bool,
    /// an input factory that does not know text files
    pub no_csv: bool,
}

/// a list of files read one after the other, with the columns the caller wants
#[derive(Clone, Debug)]
pub struct FileList {
    pub paths: Vec<String>,
    pub header: Option<(Vec<String>, Vec<FieldType>)>,
}

struct Provider(Vec<String>);
impl SerialMultiFilePathProvider for Provider {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        self.0.pop().map(PathBuf::from)
    }
}

fn csv_in(m: &ArgMatches, tz: &ChopperTz) -> CliResult<CSVInputConfig> {
    let index = |s: &str| s.parse::<usize>().ok();
    let fmt = if let (Some(d), Some(t)) = (m.value_of("csv_in_ts_fmt_date"), m.value_of("csv_in_ts_fmt_time")) {
        TimestampFmtConfig::DateTimeExplicit(d.into(), t.into())
    } else if let Some(f) = m.value_of("csv_in_ts_fmt") {
        TimestampFmtConfig::Explicit(f.into())
    } else if let Some(u) = m.value_of("csv_in_epoch") {
        TimestampFmtConfig::Epoch(TimestampUnits::from_str(u))
    } else {
        TimestampFmtConfig::Auto
    };
    let col = if let (Some(d), Some(t)) = (m.value_of("csv_in_ts_col_date"), m.value_of("csv_in_ts_col_time")) {
        match (index(d), index(t)) {
            (Some(d), Some(t)) => TimestampColConfig::DateTimeIndex(d, t),
            _ => TimestampColConfig::DateTimeName(d.into(), t.into()),
        }
    } else {
        match m.value_of("csv_in_ts_col") {
            Some(c) => index(c).map_or_else(|| TimestampColConfig::Name(c.into()), TimestampColConfig::Index),
            None => TimestampColConfig::Auto,
        }
    };
    CSVInputConfig::new(m.value_of("csv_in_delimiter"), value_t!(m, "csv_in_has_header", YesNoAuto)?, TimestampConfig::new(col, fmt, tz.clone()))
}

pub fn main(
    lib: &Lib,
    argv: Option<&[String]>,
    lists: &HashMap<String, FileList>,
    transports: Option<Vec<Box<dyn StreamingTransport>>>,
    formats: Option<Vec<Box<dyn SourceFactory>>>,
    zones: Option<HashMap<&str, Tz>>,
) -> CliResult<()> {
    let app = match argv {
        None => CliApp.create_cli_app().get_matches(),
        Some(a) => CliApp.create_cli_app().get_matches_from(a),
    };
    let m = &app;
    if m.is_present("backtrace") {
        chopper::error::turn_on_backtrace();
    }
    let tz = ChopperTz::new_from_cli_arg(m.value_of("timezone"), zones);
    let range = TimestampRange::new(m.value_of("begin"), m.value_of("end"), &tz)?;
    let out_conf = CSVOutputConfig::new(
        m.value_of("csv_out_delimiter").unwrap(),
        m.value_of("csv_out_print_time_col").unwrap().eq_ignore_ascii_case("yes"),
        m.value_of("csv_out_time_col_name").map(|s| s.to_string()),
        if m.is_present("csv_out_time_fmt_epoch") { TimestampStyle::Epoch } else { TimestampStyle::HumanReadable },
        TimestampUnits::from_str(m.value_of("csv_out_time_col_units").unwrap()),
        tz.clone(),
    );
    let mut single = SingleFileInputFactory::new(
        SeekableTransportFactory::new(create_default_seekable_transports()),
        PreviewerTransportFactory::new(create_default_streaming_transports()),
        create_default_source_factories(if lib.no_csv { None } else { Some(csv_in(m, &tz)?) }),
    );
    if let Some(f) = &formats {
        let mut all: Vec<Box<dyn SourceFactory>> = f.clone();
        all.extend(create_default_source_factories(if lib.no_csv { None } else { Some(csv_in(m, &tz)?) }));
        single = SingleFileInputFactory::new(
            SeekableTransportFactory::new(create_default_seekable_transports()),
            PreviewerTransportFactory::new(create_default_streaming_transports()),
            all,
        );
    }
    let mut inputs = if lib.no_csv { InputFactory::new_without_csv(formats, transports)? } else { InputFactory::new(csv_in(m, &tz)?, formats, transports)? };
    let formats: Vec<InputFormat> = match m.values_of("format") {
        None => vec![InputFormat::Auto],
        Some(v) => v.map(|f| if f == "auto" { InputFormat::Auto } else { InputFormat::Extension(f.to_string()) }).collect(),
    };
    let names: Vec<Option<String>> = match m.values_of("input") {
        None => vec![None],
        Some(v) => v.map(|s| Some(s.to_string())).collect(),
    };
    let mut sources: Vec<Box<dyn Source>> = vec![];
    let mut headers = vec![];
    let n = names.len();
    for (i, name) in names.into_iter().enumerate() {
        let format = formats[i.min(formats.len() - 1)].clone();
        let s: Box<dyn Source> = match name {
            Some(p) if lists.contains_key(&p) => {
                let l = &lists[&p];
                let mut paths = l.paths.clone();
                paths.reverse();
                let h = l.header.clone().map(|(n, t)| Header::new(n, t));
                Box::new(SerialMultiFileSource::new(single.clone(), Box::new(Provider(paths)), format, h)?)
            }
            Some(p) if lib.by_path && matches!(format, InputFormat::Auto) => inputs.create_source_from_path(&p)?,
            Some(p) => inputs.create_source_from_input(&Input { input: InputType::Path(p), format })?,
            None => inputs.create_source_from_input(&Input { input: InputType::StdIn, format })?,
        };
        headers.push(s.header().clone());
        sources.push(s);
    }
    let sink = factory::new_header_sink(m.value_of("output"), Some(out_conf))?;
    let mut chains = vec![];
    let mut last = vec![];
    if n > 1 {
        for _ in 0..n {
            chains.push(HeaderChain::new(vec![HeaderNode::Merge(n)]));
        }
        let merge = MergeJoin::new(n)?;
        let t = merge.get_new_header_count_tracker();
        last.push(HeaderNode::MergeHeaderSink(merge, t));
    }
    last.push(HeaderNode::HeaderSink(sink));
    chains.push(HeaderChain::new(last));
    Driver::new(sources, HeaderGraph::new(chains), range, headers)?.drive()
}
