//! G02: maze nodes and directions through data formats: JSON, a tree of serde's data model read back in every way a
//! format may (fields as map in any order or as sequence; names as text, bytes or index; owned or borrowed), and a flat
//! stream without names.
use crate::{rng::Rng, Prop};
use puzzle_utils::puzzles::maze::{create_maze, print_maze, MazeAlgorithm, MazeDirection, MazeNode};
use serde::de::{self, DeserializeOwned, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use serde_json::{json, Value};
use std::fmt;

pub fn prop() -> Prop {
    Prop { gen, check, bounds: "every value (4 kinds of node, 4 directions) through JSON (4 ways), the data model read back in 72 ways, and a flat stream" }
}

const WAYS: u64 = 4 + 72 + 2;

fn gen(i: u64, _: &mut Rng) -> Value {
    json!({"value": i % 8, "way": i / 8 % WAYS})
}

/// the four kinds of node, told apart by how they are drawn
fn node(k: u64) -> MazeNode {
    let mut kinds: Vec<(Vec<u8>, MazeNode)> = vec![];
    for _ in 0..60 {
        let (grid, _) = create_maze(6, 6, MazeAlgorithm::RecursiveBacktrack);
        for n in grid {
            let p = drawn(&n);
            if !kinds.iter().any(|x| x.0 == p) {
                kinds.push((p, n));
            }
        }
        if kinds.len() == 4 {
            break;
        }
    }
    kinds.sort_by(|a, b| a.0.cmp(&b.0));
    let n = kinds.len() as u64;
    kinds.swap_remove((k % n) as usize).1
}

fn drawn(n: &MazeNode) -> Vec<u8> {
    print_maze(1, 1, std::slice::from_ref(n)).map(|p| p.into_raw()).unwrap_or_default()
}

fn same_node(a: &MazeNode, b: &MazeNode) -> bool {
    drawn(a) == drawn(b) && format!("{a:?}") == format!("{b:?}")
}
fn same_dir(a: &MazeDirection, b: &MazeDirection) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

fn check(v: &Value) -> Result<(), String> {
    let (val, way) = (v["value"].as_u64().unwrap(), v["way"].as_u64().unwrap());
    if val < 4 {
        let n = node(val);
        let back: MazeNode = through(&n, way).map_err(|e| format!("{n:?}: {e}"))?;
        if !same_node(&n, &back) {
            return Err(format!("{n:?} comes back as {back:?}"));
        }
        let back: Vec<MazeNode> = through(&vec![n.clone(), n.clone()], way).map_err(|e| format!("two of {n:?}: {e}"))?;
        if back.len() != 2 || !back.iter().all(|b| same_node(&n, b)) {
            return Err(format!("two of {n:?} come back as {back:?}"));
        }
    } else {
        let d = [MazeDirection::Right, MazeDirection::Down, MazeDirection::Left, MazeDirection::Up][val as usize - 4].clone();
        let back: MazeDirection = through(&d, way).map_err(|e| format!("{d:?}: {e}"))?;
        if !same_dir(&d, &back) {
            return Err(format!("{d:?} comes back as {back:?}"));
        }
        let back: Vec<MazeDirection> = through(&vec![d.clone(), d.clone()], way).map_err(|e| format!("two of {d:?}: {e}"))?;
        if back.len() != 2 || !back.iter().all(|b| same_dir(&d, b)) {
            return Err(format!("two of {d:?} come back as {back:?}"));
        }
    }
    Ok(())
}

fn through<T: Serialize + DeserializeOwned>(v: &T, way: u64) -> Result<T, String> {
    let s = |e: serde_json::Error| e.to_string();
    match way {
        0 => serde_json::from_str(&serde_json::to_string(v).map_err(s)?).map_err(s),
        1 => serde_json::from_reader(&serde_json::to_vec_pretty(v).map_err(s)?[..]).map_err(s),
        2 => serde_json::from_value(serde_json::to_value(v).map_err(s)?).map_err(s),
        3 => serde_json::from_slice(&serde_json::to_vec(v).map_err(s)?).map_err(s),
        4..=75 => {
            let k = way - 4;
            let mode = Mode { fields: k % 3, key: k / 3 % 6, human: k / 18 % 2 == 0, hints: k / 36 == 0 };
            let t = v.serialize(Tree { human: mode.human }).map_err(|e| e.0)?;
            T::deserialize(Read { v: &t, m: mode }).map_err(|e| format!("{} ({t:?}, {mode:?})", e.0))
        }
        _ => {
            let human = way == 76;
            let mut out = vec![];
            v.serialize(Flat { out: &mut out, human }).map_err(|e| e.0)?;
            let mut r = Unflat { left: &out[..], human };
            let t = T::deserialize(&mut r).map_err(|e| format!("{} (flat {out:?})", e.0))?;
            if !r.left.is_empty() {
                return Err(format!("does not read all of {out:?}"));
            }
            Ok(t)
        }
    }
}

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

// ------------------------------------------------------------------ the data model as a tree
#[derive(Debug, Clone)]
enum V {
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    Newtype(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    /// name, index (skipped fields counted), value
    Struct(Vec<(&'static str, u64, V)>),
    Variant(&'static str, u32, Option<Box<V>>),
}

#[derive(Clone, Copy)]
struct Tree {
    human: bool,
}
struct Items {
    t: Tree,
    v: Vec<V>,
    key: Option<V>,
    map: Vec<(V, V)>,
    fields: Vec<(&'static str, u64, V)>,
    n: u64,
    len: Option<usize>,
    variant: Option<(&'static str, u32)>,
}
impl Tree {
    fn items(self, len: Option<usize>, variant: Option<(&'static str, u32)>) -> Result<Items, E> {
        Ok(Items { t: self, v: vec![], key: None, map: vec![], fields: vec![], n: 0, len, variant })
    }
}
impl Items {
    fn finish(self, v: V, n: usize) -> Result<V, E> {
        if self.len.is_some_and(|l| l != n) {
            return Err(E(format!("announced {:?} elements and wrote {}", self.len, n)));
        }
        Ok(match self.variant {
            Some((n, i)) => V::Variant(n, i, Some(Box::new(v))),
            None => v,
        })
    }
    fn put<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let x = v.serialize(self.t)?;
        self.v.push(x);
        Ok(())
    }
    fn seq(mut self) -> Result<V, E> {
        let v = std::mem::take(&mut self.v);
        let n = v.len();
        self.finish(V::Seq(v), n)
    }
}
macro_rules! prim {
    ($($f:ident $t:ty => $e:expr;)*) => { $(fn $f(self, v: $t) -> Result<V, E> { let f: fn($t) -> V = $e; Ok(f(v)) })* };
}
impl ser::Serializer for Tree {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Items;
    type SerializeStruct = Items;
    type SerializeStructVariant = Items;
    prim! {
        serialize_bool bool => V::Bool; serialize_i8 i8 => |v| V::I(v as i64); serialize_i16 i16 => |v| V::I(v as i64);
        serialize_i32 i32 => |v| V::I(v as i64); serialize_i64 i64 => V::I; serialize_u8 u8 => |v| V::U(v as u64);
        serialize_u16 u16 => |v| V::U(v as u64); serialize_u32 u32 => |v| V::U(v as u64); serialize_u64 u64 => V::U;
        serialize_f32 f32 => |v| V::F(v as f64); serialize_f64 f64 => V::F; serialize_char char => V::Char;
        serialize_str &str => |v| V::Str(v.into()); serialize_bytes &[u8] => |v| V::Bytes(v.into());
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        Ok(V::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, E> {
        Ok(V::Variant(n, i, None))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        Ok(V::Newtype(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<V, E> {
        Ok(V::Variant(n, i, Some(Box::new(v.serialize(self)?))))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Items, E> {
        self.items(len, None)
    }
    fn serialize_tuple(self, len: usize) -> Result<Items, E> {
        self.items(Some(len), None)
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Items, E> {
        self.items(Some(len), None)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, len: usize) -> Result<Items, E> {
        self.items(Some(len), Some((n, i)))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Items, E> {
        self.items(len, None)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Items, E> {
        self.items(Some(len), None)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, len: usize) -> Result<Items, E> {
        self.items(Some(len), Some((n, i)))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
macro_rules! seqs {
    ($($tr:ident $f:ident;)*) => { $(impl ser::$tr for Items {
        type Ok = V;
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put(v) }
        fn end(self) -> Result<V, E> { self.seq() }
    })* };
}
seqs! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl ser::SerializeMap for Items {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.key = Some(v.serialize(self.t)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.key.take().ok_or(E("a value without a key".into()))?;
        let x = v.serialize(self.t)?;
        self.map.push((k, x));
        Ok(())
    }
    fn end(mut self) -> Result<V, E> {
        let m = std::mem::take(&mut self.map);
        let n = m.len();
        self.finish(V::Map(m), n)
    }
}
macro_rules! structs {
    ($($tr:ident)*) => { $(impl ser::$tr for Items {
        type Ok = V;
        type Error = E;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
            let x = v.serialize(self.t)?;
            self.fields.push((k, self.n, x));
            self.n += 1;
            Ok(())
        }
        fn skip_field(&mut self, _: &'static str) -> Result<(), E> {
            self.n += 1;
            Ok(())
        }
        fn end(mut self) -> Result<V, E> {
            let m = std::mem::take(&mut self.fields);
            let n = m.len();
            self.finish(V::Struct(m), n)
        }
    })* };
}
structs! { SerializeStruct SerializeStructVariant }

#[derive(Clone, Copy, Debug)]
struct Mode {
    /// 0: map in order, 1: map in the opposite order, 2: sequence
    fields: u64,
    /// 0 text, 1 borrowed text, 2 owned text, 3 bytes, 4 index, 5 borrowed bytes
    key: u64,
    human: bool,
    hints: bool,
}
#[derive(Clone, Copy)]
struct Read<'a> {
    v: &'a V,
    m: Mode,
}
/// a name
struct Name<'a> {
    s: &'a str,
    i: u64,
    m: Mode,
}
impl<'de> de::Deserializer<'de> for Name<'de> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.m.key {
            0 => w.visit_str(self.s),
            1 => w.visit_borrowed_str(self.s),
            2 => w.visit_string(self.s.into()),
            3 => w.visit_bytes(self.s.as_bytes()),
            4 => w.visit_u64(self.i),
            _ => w.visit_borrowed_bytes(self.s.as_bytes()),
        }
    }
    fn deserialize_str<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        w.visit_str(self.s)
    }
    fn deserialize_string<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        w.visit_string(self.s.into())
    }
    fn is_human_readable(&self) -> bool {
        self.m.human
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> de::Deserializer<'de> for Read<'de> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Bool(b) => w.visit_bool(*b),
            V::U(n) => w.visit_u64(*n),
            V::I(n) => w.visit_i64(*n),
            V::F(x) => w.visit_f64(*x),
            V::Char(c) => w.visit_char(*c),
            V::Str(s) => match self.m.key {
                1 => w.visit_borrowed_str(s),
                2 => w.visit_string(s.clone()),
                _ => w.visit_str(s),
            },
            V::Bytes(b) => w.visit_bytes(b),
            V::None => w.visit_none(),
            V::Some(v) => w.visit_some(Read { v, m: self.m }),
            V::Unit => w.visit_unit(),
            V::Newtype(v) => w.visit_newtype_struct(Read { v, m: self.m }),
            V::Seq(l) => w.visit_seq(Elems { l: l.iter().collect(), m: self.m, n: 0 }),
            V::Map(l) => {
                let e = l.iter().map(|(k, v)| (Key::V(k), v)).collect();
                w.visit_map(Entries { l: e, m: self.m, n: 0 })
            }
            V::Struct(l) => {
                if self.m.fields == 2 {
                    return w.visit_seq(Elems { l: l.iter().map(|x| &x.2).collect(), m: self.m, n: 0 });
                }
                let mut e: Vec<_> = l.iter().map(|(k, i, v)| (Key::Name(k, *i), v)).collect();
                if self.m.fields == 1 {
                    e.reverse();
                }
                w.visit_map(Entries { l: e, m: self.m, n: 0 })
            }
            V::Variant(..) => w.visit_enum(self),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::None => w.visit_none(),
            V::Some(v) => w.visit_some(Read { v, m: self.m }),
            _ => w.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Newtype(v) => w.visit_newtype_struct(Read { v, m: self.m }),
            _ => w.visit_newtype_struct(self),
        }
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        w.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.m.human
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier }
}
struct Elems<'a> {
    l: Vec<&'a V>,
    m: Mode,
    n: usize,
}
impl<'de> de::SeqAccess<'de> for Elems<'de> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        let Some(v) = self.l.get(self.n) else { return Ok(None) };
        self.n += 1;
        s.deserialize(Read { v, m: self.m }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.m.hints.then_some(self.l.len() - self.n)
    }
}
#[derive(Clone, Copy)]
enum Key<'a> {
    V(&'a V),
    Name(&'a str, u64),
}
struct Entries<'a> {
    l: Vec<(Key<'a>, &'a V)>,
    m: Mode,
    n: usize,
}
impl<'de> de::MapAccess<'de> for Entries<'de> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.l.get(self.n) {
            None => Ok(None),
            Some((Key::V(v), _)) => s.deserialize(Read { v, m: self.m }).map(Some),
            Some((Key::Name(k, i), _)) => s.deserialize(Name { s: k, i: *i, m: self.m }).map(Some),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        let v = self.l.get(self.n).ok_or(E("no value left".into()))?.1;
        self.n += 1;
        s.deserialize(Read { v, m: self.m })
    }
    fn size_hint(&self) -> Option<usize> {
        self.m.hints.then_some(self.l.len() - self.n)
    }
}
impl<'de> de::EnumAccess<'de> for Read<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), E> {
        match self.v {
            V::Variant(n, i, _) => Ok((s.deserialize(Name { s: n, i: *i as u64, m: self.m })?, self)),
            _ => Err(E("not a variant".into())),
        }
    }
}
impl<'de> Read<'de> {
    fn payload(self) -> Result<Read<'de>, E> {
        match self.v {
            V::Variant(_, _, Some(v)) => Ok(Read { v, m: self.m }),
            _ => Err(E("a variant without content".into())),
        }
    }
}
impl<'de> de::VariantAccess<'de> for Read<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.v {
            V::Variant(_, _, None) => Ok(()),
            _ => Err(E("a variant with content".into())),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> {
        s.deserialize(self.payload()?)
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_any(self.payload()?, w)
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_any(self.payload()?, w)
    }
}

// ------------------------------------------------------------------ a stream without names, read by what is asked for
struct Flat<'a> {
    out: &'a mut Vec<V>,
    human: bool,
}
impl<'a> Flat<'a> {
    fn put(self, v: V) -> Result<(), E> {
        self.out.push(v);
        Ok(())
    }
}
macro_rules! flat {
    ($($f:ident $t:ty => $e:expr;)*) => { $(fn $f(self, v: $t) -> Result<(), E> { let f: fn($t) -> V = $e; self.put(f(v)) })* };
}
impl<'a> ser::Serializer for Flat<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    flat! {
        serialize_bool bool => V::Bool; serialize_i8 i8 => |v| V::I(v as i64); serialize_i16 i16 => |v| V::I(v as i64);
        serialize_i32 i32 => |v| V::I(v as i64); serialize_i64 i64 => V::I; serialize_u8 u8 => |v| V::U(v as u64);
        serialize_u16 u16 => |v| V::U(v as u64); serialize_u32 u32 => |v| V::U(v as u64); serialize_u64 u64 => V::U;
        serialize_f32 f32 => |v| V::F(v as f64); serialize_f64 f64 => V::F; serialize_char char => V::Char;
        serialize_str &str => |v| V::Str(v.into()); serialize_bytes &[u8] => |v| V::Bytes(v.into());
    }
    fn serialize_none(self) -> Result<(), E> {
        self.put(V::Bool(false))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.out.push(V::Bool(true));
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.put(V::U(i as u64))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.out.push(V::U(i as u64));
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        self.out.push(V::U(len.ok_or(E("a sequence of unknown length".into()))? as u64));
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.out.push(V::U(i as u64));
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.out.push(V::U(i as u64));
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
macro_rules! flats {
    ($($tr:ident $f:ident ($($k:ident)?);)*) => { $(impl<'a> ser::$tr for Flat<'a> {
        type Ok = ();
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, $($k: &'static str,)? v: &T) -> Result<(), E> { v.serialize(Flat { out: self.out, human: self.human }) }
        fn end(self) -> Result<(), E> { Ok(()) }
    })* };
}
flats! { SerializeSeq serialize_element(); SerializeTuple serialize_element(); SerializeTupleStruct serialize_field(); SerializeTupleVariant serialize_field(); SerializeStruct serialize_field(_k); SerializeStructVariant serialize_field(_k); }
impl<'a> ser::SerializeMap for Flat<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(Flat { out: self.out, human: self.human })
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(Flat { out: self.out, human: self.human })
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

struct Unflat<'a> {
    left: &'a [V],
    human: bool,
}
impl<'a> Unflat<'a> {
    fn pop(&mut self) -> Result<&'a V, E> {
        let (f, r) = self.left.split_first().ok_or(E("the stream ends too early".into()))?;
        self.left = r;
        Ok(f)
    }
    fn num(&mut self) -> Result<u64, E> {
        match self.pop()? {
            V::U(n) => Ok(*n),
            x => Err(E(format!("{x:?} instead of a number"))),
        }
    }
}
struct Count<'a, 'b> {
    r: &'b mut Unflat<'a>,
    n: u64,
}
impl<'de, 'b> de::SeqAccess<'de> for Count<'de, 'b> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n as usize)
    }
}
impl<'de, 'b> de::MapAccess<'de> for Count<'de, 'b> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        s.deserialize(&mut *self.r)
    }
}
macro_rules! unflat {
    ($($f:ident => $p:pat => $v:ident $e:expr;)*) => { $(fn $f<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.pop()? { $p => w.$v($e), x => Err(E(format!("{x:?} where {} was asked for", stringify!($f)))) }
    })* };
}
impl<'de, 'b> de::Deserializer<'de> for &'b mut Unflat<'de> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, _: W) -> Result<W::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    unflat! {
        deserialize_bool => V::Bool(b) => visit_bool *b;
        deserialize_i8 => V::I(n) => visit_i8 *n as i8; deserialize_i16 => V::I(n) => visit_i16 *n as i16;
        deserialize_i32 => V::I(n) => visit_i32 *n as i32; deserialize_i64 => V::I(n) => visit_i64 *n;
        deserialize_u8 => V::U(n) => visit_u8 *n as u8; deserialize_u16 => V::U(n) => visit_u16 *n as u16;
        deserialize_u32 => V::U(n) => visit_u32 *n as u32; deserialize_u64 => V::U(n) => visit_u64 *n;
        deserialize_f32 => V::F(n) => visit_f32 *n as f32; deserialize_f64 => V::F(n) => visit_f64 *n;
        deserialize_char => V::Char(c) => visit_char *c; deserialize_str => V::Str(s) => visit_str s;
        deserialize_string => V::Str(s) => visit_string s.clone(); deserialize_bytes => V::Bytes(b) => visit_bytes b;
        deserialize_byte_buf => V::Bytes(b) => visit_byte_buf b.clone();
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.pop()? {
            V::Bool(true) => w.visit_some(self),
            V::Bool(false) => w.visit_none(),
            x => Err(E(format!("{x:?} where an option was asked for"))),
        }
    }
    fn deserialize_unit<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        w.visit_unit()
    }
    fn deserialize_unit_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        w.visit_unit()
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        w.visit_newtype_struct(self)
    }
    fn deserialize_seq<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        let n = self.num()?;
        w.visit_seq(Count { r: self, n })
    }
    fn deserialize_tuple<W: Visitor<'de>>(self, n: usize, w: W) -> Result<W::Value, E> {
        w.visit_seq(Count { r: self, n: n as u64 })
    }
    fn deserialize_tuple_struct<W: Visitor<'de>>(self, _: &'static str, n: usize, w: W) -> Result<W::Value, E> {
        w.visit_seq(Count { r: self, n: n as u64 })
    }
    fn deserialize_map<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        let n = self.num()?;
        w.visit_map(Count { r: self, n })
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], w: W) -> Result<W::Value, E> {
        w.visit_seq(Count { r: self, n: f.len() as u64 })
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Result<W::Value, E> {
        w.visit_enum(self)
    }
    fn deserialize_identifier<W: Visitor<'de>>(self, _: W) -> Result<W::Value, E> {
        Err(E("the format has no names".into()))
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, _: W) -> Result<W::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
impl<'de, 'b> de::EnumAccess<'de> for &'b mut Unflat<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), E> {
        let n = self.num()?;
        let v = s.deserialize(de::value::U64Deserializer::<E>::new(n))?;
        Ok((v, self))
    }
}
impl<'de, 'b> de::VariantAccess<'de> for &'b mut Unflat<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<W: Visitor<'de>>(self, n: usize, w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_tuple(self, n, w)
    }
    fn struct_variant<W: Visitor<'de>>(self, f: &'static [&'static str], w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_struct(self, "", f, w)
    }
}
