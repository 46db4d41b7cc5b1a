//! What plain text a syntax tree (in its JSON form) must be rendered to.

use crate::dates::Moment;
use ftml::data::PageInfo;
use serde_json::Value;

pub struct Text<'a> {
    out: String,
    invisible: usize,
    scopes: Vec<&'a Value>,
    site: String,
}

pub fn render(elements: &Value, info: &PageInfo) -> String {
    let mut t = Text { out: String::new(), invisible: 0, scopes: vec![], site: info.site.to_string() };
    t.els(elements);
    t.out.trim_matches('\n').to_string()
}

impl<'a> Text<'a> {
    fn put(&mut self, s: &str) {
        if self.invisible > 0 {
            self.out.extend(s.chars().map(|_| ' '));
        } else {
            self.out.push_str(s);
        }
    }

    fn line(&mut self) {
        self.out.push('\n');
    }

    fn fresh_line(&mut self) {
        if !self.out.ends_with('\n') {
            self.line();
        }
    }

    fn els(&mut self, v: &'a Value) {
        for e in v.as_array().unwrap() {
            self.element(e);
        }
    }

    fn element(&mut self, e: &'a Value) {
        let d = &e["data"];
        let s = |v: &Value| v.as_str().unwrap().to_string();
        match e["element"].as_str().unwrap() {
            "text" | "raw" | "email" => self.put(&s(d)),
            "variable" => {
                let name = s(d);
                let value = self.scopes.iter().rev().find_map(|m| m.get(&name)).and_then(|v| v.as_str());
                let value = value.map(str::to_string).unwrap_or(format!("{{${name}}}"));
                self.put(&value);
            }
            "container" => match &d["type"] {
                Value::String(t) if t == "hidden" => {}
                Value::String(t) if t == "invisible" => {
                    self.invisible += 1;
                    self.els(&d["elements"]);
                    self.invisible -= 1;
                }
                Value::String(t) if t == "ruby-text" => {
                    self.put("(");
                    self.els(&d["elements"]);
                    self.put(")");
                }
                t => {
                    let block = t.get("header").is_some() || matches!(t.as_str(), Some("div" | "paragraph" | "blockquote"));
                    if block {
                        self.line();
                    }
                    self.els(&d["elements"]);
                    if block {
                        self.line();
                    }
                }
            },
            "table" => {
                self.fresh_line();
                for r in d["rows"].as_array().unwrap() {
                    for c in r["cells"].as_array().unwrap() {
                        self.els(&c["elements"]);
                    }
                    self.line();
                }
                self.line();
            }
            "tab-view" => {
                for t in d.as_array().unwrap() {
                    self.put(&s(&t["label"]));
                    self.line();
                    self.els(&t["elements"]);
                    self.line();
                }
            }
            "anchor" | "color" | "collapsible" => self.els(&d["elements"]),
            "link" => {
                let label = crate::htmlmodel::label(&self.site, &d["link"], &d["label"]);
                self.put(&label);
            }
            "list" => {
                self.fresh_line();
                for i in d["items"].as_array().unwrap() {
                    if i["item-type"] == "sub-list" {
                        self.element(i);
                    } else if !i["elements"].as_array().unwrap().is_empty() {
                        self.els(&i["elements"]);
                        self.line();
                    }
                }
            }
            "definition-list" => {
                for i in d.as_array().unwrap() {
                    self.els(&i["key"]);
                    self.put(" ");
                    self.els(&i["value"]);
                    self.line();
                }
                self.line();
            }
            "user" => self.put(&s(&d["name"])),
            "date" => {
                let text = Moment::from_json(&s(&d["value"])).expect("harness: date in tree").shown();
                self.put(&text);
            }
            "code" => {
                self.line();
                self.put(&s(&d["contents"]));
                self.line();
            }
            "equation-reference" => self.put(&format!("[{}]", s(d))),
            "include" => {
                self.scopes.push(&d["variables"]);
                self.els(&d["elements"]);
                self.scopes.pop();
            }
            "line-break" => self.line(),
            "line-breaks" => (0..d.as_u64().unwrap()).for_each(|_| self.line()),
            "module" | "anchor-name" | "image" | "radio-button" | "check-box" | "table-of-contents" | "footnote" | "footnote-block" | "bibliography-cite"
            | "bibliography-block" | "math" | "math-inline" | "embed" | "html" | "iframe" | "style" | "clear-float" | "horizontal-rule" => {}
            k => panic!("harness: unknown element {k}"),
        }
    }
}
