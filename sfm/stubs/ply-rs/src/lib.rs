//! The part of the Polygon File Format that the exporter uses: building a document and writing it as text.
pub mod ply {
    use std::collections::BTreeMap;
    pub type KeyMap<V> = BTreeMap<String, V>;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum Encoding {
        Ascii,
        BinaryBigEndian,
        BinaryLittleEndian,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum ScalarType {
        Char,
        UChar,
        Short,
        UShort,
        Int,
        UInt,
        Float,
        Double,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum PropertyType {
        Scalar(ScalarType),
        List(ScalarType, ScalarType),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Property {
        Char(i8),
        UChar(u8),
        Short(i16),
        UShort(u16),
        Int(i32),
        UInt(u32),
        Float(f32),
        Double(f64),
        ListChar(Vec<i8>),
        ListUChar(Vec<u8>),
        ListInt(Vec<i32>),
        ListUInt(Vec<u32>),
        ListFloat(Vec<f32>),
        ListDouble(Vec<f64>),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct PropertyDef {
        pub name: String,
        pub data_type: PropertyType,
    }
    impl PropertyDef {
        pub fn new(name: String, data_type: PropertyType) -> Self {
            Self { name, data_type }
        }
    }
    /// Definitions in the order in which they were added.
    #[derive(Debug, Clone, PartialEq)]
    pub struct Defs<T>(pub Vec<T>);
    impl<T> Default for Defs<T> {
        fn default() -> Self {
            Defs(vec![])
        }
    }
    pub trait Addable<T> {
        fn add(&mut self, t: T);
    }
    impl<T> Addable<T> for Defs<T> {
        fn add(&mut self, t: T) {
            self.0.push(t);
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct ElementDef {
        pub name: String,
        pub count: usize,
        pub properties: Defs<PropertyDef>,
    }
    impl ElementDef {
        pub fn new(name: String) -> Self {
            Self { name, count: 0, properties: Defs::default() }
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Header {
        pub encoding: Encoding,
        pub elements: Defs<ElementDef>,
        pub comments: Vec<String>,
        pub obj_infos: Vec<String>,
    }
    pub type DefaultElement = KeyMap<Property>;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Ply<E> {
        pub header: Header,
        pub payload: KeyMap<Vec<E>>,
    }
    impl<E> Ply<E> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Ply {
                header: Header {
                    encoding: Encoding::Ascii,
                    elements: Defs::default(),
                    comments: vec![],
                    obj_infos: vec![],
                },
                payload: KeyMap::new(),
            }
        }
    }
}
pub mod writer {
    use crate::ply::*;
    use std::io::{Error, ErrorKind, Result, Write};
    #[derive(Default)]
    pub struct Writer;
    fn scalar(t: &ScalarType) -> &'static str {
        match t {
            ScalarType::Char => "char",
            ScalarType::UChar => "uchar",
            ScalarType::Short => "short",
            ScalarType::UShort => "ushort",
            ScalarType::Int => "int",
            ScalarType::UInt => "uint",
            ScalarType::Float => "float",
            ScalarType::Double => "double",
        }
    }
    fn list<T: std::fmt::Display>(v: &[T]) -> String {
        let mut s = v.len().to_string();
        for x in v {
            s += &format!(" {x}");
        }
        s
    }
    fn value(p: &Property) -> (PropertyType, String) {
        use PropertyType::*;
        use ScalarType as S;
        match p {
            Property::Char(x) => (Scalar(S::Char), x.to_string()),
            Property::UChar(x) => (Scalar(S::UChar), x.to_string()),
            Property::Short(x) => (Scalar(S::Short), x.to_string()),
            Property::UShort(x) => (Scalar(S::UShort), x.to_string()),
            Property::Int(x) => (Scalar(S::Int), x.to_string()),
            Property::UInt(x) => (Scalar(S::UInt), x.to_string()),
            Property::Float(x) => (Scalar(S::Float), x.to_string()),
            Property::Double(x) => (Scalar(S::Double), x.to_string()),
            Property::ListChar(x) => (List(S::UChar, S::Char), list(x)),
            Property::ListUChar(x) => (List(S::UChar, S::UChar), list(x)),
            Property::ListInt(x) => (List(S::UChar, S::Int), list(x)),
            Property::ListUInt(x) => (List(S::UChar, S::UInt), list(x)),
            Property::ListFloat(x) => (List(S::UChar, S::Float), list(x)),
            Property::ListDouble(x) => (List(S::UChar, S::Double), list(x)),
        }
    }
    fn same(declared: &PropertyType, found: &PropertyType) -> bool {
        match (declared, found) {
            (PropertyType::List(_, a), PropertyType::List(_, b)) => a == b,
            (a, b) => a == b,
        }
    }
    impl Writer {
        pub fn new() -> Self {
            Writer
        }
        /// Writes the header and every element of the payload. As in the real writer, counts come from the
        /// payload and a payload that does not fit the header is an error.
        pub fn write_ply<W: Write>(&self, out: &mut W, ply: &mut Ply<DefaultElement>) -> Result<usize> {
            let bad = |m: String| Error::new(ErrorKind::InvalidInput, m);
            if ply.header.encoding != Encoding::Ascii {
                return Err(bad("only text is supported here".into()));
            }
            for e in &mut ply.header.elements.0 {
                e.count = ply.payload.get(&e.name).map_or(0, |v| v.len());
            }
            for k in ply.payload.keys() {
                if !ply.header.elements.0.iter().any(|e| e.name == *k) {
                    return Err(bad(format!("payload {k} is not declared")));
                }
            }
            let mut s = String::from("ply\nformat ascii 1.0\n");
            for c in &ply.header.comments {
                s += &format!("comment {c}\n");
            }
            for e in &ply.header.elements.0 {
                s += &format!("element {} {}\n", e.name, e.count);
                for p in &e.properties.0 {
                    match &p.data_type {
                        PropertyType::Scalar(t) => s += &format!("property {} {}\n", scalar(t), p.name),
                        PropertyType::List(a, b) => {
                            s += &format!("property list {} {} {}\n", scalar(a), scalar(b), p.name)
                        }
                    }
                }
            }
            s += "end_header\n";
            for e in &ply.header.elements.0 {
                for row in ply.payload.get(&e.name).into_iter().flatten() {
                    let mut cells = vec![];
                    for p in &e.properties.0 {
                        let v = row.get(&p.name).ok_or_else(|| bad(format!("missing property {}", p.name)))?;
                        let (t, text) = value(v);
                        if !same(&p.data_type, &t) {
                            return Err(bad(format!("property {} has the wrong type", p.name)));
                        }
                        cells.push(text);
                    }
                    s += &cells.join(" ");
                    s.push('\n');
                }
            }
            out.write_all(s.as_bytes())?;
            Ok(s.len())
        }
    }
}
