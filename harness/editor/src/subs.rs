// Conversions between subtitle formats (spec/Subs.tla).
use crate::run::{bytes, jb, Machine};
use ass_editor::formats::{ass::AssFormat, srt::SrtFormat, webvtt::WebVttFormat, FormatOptions, FormatRegistry};
use ass_editor::utils::formats::{ConversionOptions, FormatConverter, FormatOptions as Opts, SubtitleFormat};
use ass_editor::EditorDocument;
use serde_json::{json, Value};

pub struct Subs {
    reg: FormatRegistry,
    doc: String,
    file: String,
}

fn kind(f: &str) -> Option<SubtitleFormat> {
    match f {
        "srt" => Some(SubtitleFormat::SRT),
        "vtt" => Some(SubtitleFormat::WebVTT),
        "ass" => Some(SubtitleFormat::ASS),
        "txt" => Some(SubtitleFormat::PlainText),
        _ => None,
    }
}

impl Subs {
    pub fn new() -> Self {
        let mut reg = FormatRegistry::new();
        reg.register_format(Box::new(SrtFormat::new()));
        reg.register_format(Box::new(WebVttFormat::new()));
        reg.register_format(Box::new(AssFormat::new()));
        Self { reg, doc: String::new(), file: String::new() }
    }

    fn read(&mut self, op: &Value, text: &str) -> Value {
        let fmt = op["fmt"].as_str().unwrap();
        let ext = op["ext"].as_str().filter(|e| !e.is_empty()).unwrap_or(fmt);
        let (done, out, n) = if op["via"] == "formats" {
            match self.reg.find_importer(ext).expect("importer").import_from_string(text, &FormatOptions::default()) {
                Ok((d, r)) => (true, d.text(), if fmt == "ass" { -1 } else { r.lines_processed as i64 }),
                Err(_) => (false, String::new(), -1),
            }
        } else {
            match FormatConverter::import(text, kind(fmt)) {
                Ok(t) => (true, t, -1),
                Err(_) => (false, String::new(), -1),
            }
        };
        self.doc = out.clone();
        json!({ "done": done, "out": jb(&out), "n": n })
    }

    fn write(&mut self, op: &Value) -> Value {
        let fmt = op["fmt"].as_str().unwrap();
        let ext = op["ext"].as_str().filter(|e| !e.is_empty()).unwrap_or(fmt);
        let doc = EditorDocument::from_content(&self.doc).expect("document");
        let (done, out, n) = if op["via"] == "formats" {
            match self.reg.find_exporter(ext).expect("exporter").export_to_string(&doc, &FormatOptions::default()) {
                Ok((t, r)) => (true, t, if fmt == "ass" { -1 } else { r.lines_processed as i64 }),
                Err(_) => (false, String::new(), -1),
            }
        } else {
            let format_options = match op["opts"].as_str().unwrap() {
                "vtt" => Opts::WebVTT { include_style_block: true, include_notes: true, use_cue_settings: true },
                "srt" => Opts::SRT { include_numbers: true, millisecond_precision: true },
                _ => Opts::None,
            };
            let o = ConversionOptions { strip_formatting: op["strip"] == true, format_options, ..Default::default() };
            match FormatConverter::export(&doc, kind(fmt).expect("format"), &o) {
                Ok(t) => (true, t, -1),
                Err(_) => (false, String::new(), -1),
            }
        };
        self.file = out.clone();
        json!({ "done": done, "out": jb(&out), "n": n })
    }
}

impl Machine for Subs {
    fn step(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "reset" => {
                *self = Self::new();
                json!({})
            }
            "read" => {
                let t = bytes(&op["s"]);
                self.read(op, &t)
            }
            "again" => {
                let t = self.file.clone();
                self.read(op, &t)
            }
            "write" => self.write(op),
            o => panic!("unknown op {o}"),
        }
    }
}
