// Maps keyed by value and the file system, as far as the project uses them (trusted).
use vstd::prelude::*;
use crate::spec::*;
use crate::dts::ast::Path;
use crate::dts::ast::SName;
use std::sync::Arc;
use std::path::{Path as StdPath, PathBuf};
verus! {

// ---- hashed maps ------------------------------------------------------------------------------

/// what keys are compared by: the value they stand for
pub trait Key { type Of; spec fn key(&self) -> Self::Of; }
impl Key for String { type Of = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl Key for str { type Of = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
/// `Path` derives equality and hashing
impl Key for Path { type Of = Seq<SName>; open spec fn key(&self) -> Seq<SName> { self@ } }
impl Key for PathBuf { type Of = PathBuf; open spec fn key(&self) -> PathBuf { *self } }

/// stands for `std::collections::HashMap`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K: Key, V> HashMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K::Of, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.map() == Map::<K::Of, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<Of = K::Of> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self.map().contains_key(k.key()), r matches Some(v) ==> *v == self.map()[k.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<Of = K::Of> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self.map().contains_key(k.key()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k.key(), v),
            r is Some <==> old(self).map().contains_key(k.key()), r matches Some(v) ==> v == old(self).map()[k.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Key<Of = K::Of> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().remove(k.key()),
    { unimplemented!() }
    /// entries of `o` take precedence
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashMap<K, V>)
        ensures final(self).map() == old(self).map().union_prefer_right(o.map()),
    { unimplemented!() }
}
impl<K: Key, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.map().dom().len(),
    { unimplemented!() }
}
impl<V> HashMap<PathBuf, V> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &PathBuf) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).map().contains_key(*k) && *v == old(self).map()[*k] && final(self).map() == old(self).map().insert(*k, *final(v)),
            None => !old(self).map().contains_key(*k) && final(self).map() == old(self).map(),
        },
    { unimplemented!() }
}
/// `map.keys().sorted()`
pub uninterp spec fn sorted(s: Set<PathBuf>) -> Seq<PathBuf>;
#[verifier::external_body]
pub fn sorted_keys<V>(m: &HashMap<PathBuf, V>) -> (r: Vec<&PathBuf>)
    ensures r@.map_values(|k: &PathBuf| *k) == sorted(m.map().dom()), sorted(m.map().dom()).no_duplicates(),
        forall|k: PathBuf| sorted(m.map().dom()).contains(k) <==> m.map().contains_key(k),
{ unimplemented!() }

pub open spec fn seen_paths(r: Seq<&StdPath>) -> Seq<PathBuf> { r.map_values(|p: &StdPath| owned(p)) }
/// `map.keys().map(|key| key.as_path())`, in any order
#[verifier::external_body]
pub fn key_paths<V>(m: &HashMap<PathBuf, V>) -> (r: Vec<&StdPath>)
    ensures seen_paths(r@).no_duplicates(), forall|k: PathBuf| #[trigger] seen_paths(r@).contains(k) <==> m.map().contains_key(k),
{ unimplemented!() }

/// stands for `std::collections::HashSet`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::collections::HashSet<K> }
impl<K: Key> HashSet<K> {
    pub uninterp spec fn set(&self) -> Set<K::Of>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.set() == Set::<K::Of>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self).set() == old(self).set().insert(k.key()), r == !old(self).set().contains(k.key()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self.set().contains(k.key()),
    { unimplemented!() }
}

/// values are shared or cloned structurally
impl<K: Key, V: Clone> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r.map() == self.map(),
    { unimplemented!() }
}

/// paths are taken modulo their equality, which hashing and cloning respect
#[verifier::external_body]
pub proof fn axiom_path_buf()
    ensures key_like::<PathBuf>(),
{}

// ---- paths and the file system --------------------------------------------------------------------

/// an owned copy of a path
pub uninterp spec fn owned(p: &StdPath) -> PathBuf;
pub uninterp spec fn path_of(s: Seq<char>) -> PathBuf;
/// a name relative to a directory
pub uninterp spec fn joined(dir: PathBuf, name: Seq<char>) -> PathBuf;
/// the canonical form of a path, if there is a file or directory of that name. Assumption: the
/// file system does not change while files are being processed.
pub uninterp spec fn canon(p: PathBuf) -> Option<PathBuf>;

pub assume_specification [PathBuf::as_path] (p: &PathBuf) -> (r: &StdPath)
    ensures owned(r) == *p;
pub assume_specification [StdPath::to_path_buf] (p: &StdPath) -> (r: PathBuf)
    ensures r == owned(p);
#[verifier::external_body]
pub fn to_owned(p: &Arc<StdPath>) -> (r: PathBuf)
    ensures r == owned(&**p),
{ p.to_path_buf() }
pub assume_specification [<PathBuf as Clone>::clone] (p: &PathBuf) -> (r: PathBuf)
    ensures r == *p;
#[verifier::external_body]
pub fn join(p: &PathBuf, name: String) -> (r: PathBuf)
    ensures r == joined(*p, name@),
{ p.join(name) }
/// `dunce::canonicalize`
#[verifier::external_body]
pub fn canonicalize(p: PathBuf) -> (r: Result<PathBuf, std::io::Error>)
    ensures (match r { Ok(x) => Some(x), Err(_) => None }) == canon(p),
{ unimplemented!() }
#[verifier::external_body]
pub fn canonicalize_text(p: String) -> (r: Result<PathBuf, std::io::Error>)
    ensures (match r { Ok(x) => Some(x), Err(_) => None }) == canon(path_of(p@)),
{ unimplemented!() }
/// `PathBuf::default()`
#[verifier::external_body]
pub fn empty_path() -> (r: PathBuf)
    ensures r == path_of(""@),
{ unimplemented!() }
/// `&[x]`
#[verifier::external_body]
pub fn one<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x],
{ unimplemented!() }

/// the text of a file, if it can be read. Assumptions: the file system does not change while files
/// are being processed, and files are not larger than what positions can express.
pub uninterp spec fn content(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(p: &PathBuf) -> (r: Result<String, std::io::Error>)
    ensures match r { Ok(t) => content(*p) == Some(t@) && vstd::utf8::encode_utf8(t@).len() <= MAX_LEN, Err(_) => content(*p) is None },
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_content(p: PathBuf)
    ensures content(p) matches Some(t) ==> vstd::utf8::encode_utf8(t).len() <= MAX_LEN,
{}
/// the extension of a path, if it has one that is valid text
pub uninterp spec fn ext_of(p: PathBuf) -> Option<Seq<char>>;
/// the directory that a file lies in
pub uninterp spec fn parent_of(p: PathBuf) -> Option<PathBuf>;
pub assume_specification<'a> [StdPath::parent] (p: &'a StdPath) -> (r: Option<&'a StdPath>)
    ensures (match r { Some(d) => Some(owned(d)), None => None }) == parent_of(owned(p));
/// a shared copy of a path
pub uninterp spec fn shared(p: PathBuf) -> Arc<StdPath>;
#[verifier::external_body]
pub fn share(p: PathBuf) -> (r: Arc<StdPath>)
    ensures r == shared(p), owned(&*r) == p,
{ p.into() }
#[verifier::external_body]
pub proof fn axiom_shared(p: PathBuf)
    ensures owned(&*shared(p)) == p,
{}
/// canonical paths are their own canonical form
#[verifier::external_body]
pub proof fn axiom_canon(p: PathBuf)
    ensures canon(p) matches Some(c) ==> canon(c) == Some(c),
{}

/// the first of the directories, from the i-th on, that the name exists in
pub open spec fn first_in(dirs: Seq<PathBuf>, name: Seq<char>, i: int) -> Option<PathBuf> decreases dirs.len() - i {
    if 0 <= i < dirs.len() {
        match canon(joined(dirs[i], name)) { Some(p) => Some(p), None => first_in(dirs, name, i + 1) }
    } else { None }
}
/// the file that a name stands for
pub open spec fn lookup(dirs: Seq<PathBuf>, name: Seq<char>) -> Option<PathBuf> {
    match first_in(dirs, name, 0) { Some(p) => Some(p), None => canon(path_of(name)) }
}

/// whether a path starts at the root
pub uninterp spec fn absolute(p: PathBuf) -> bool;
#[verifier::external_body]
pub proof fn axiom_absolute(p: PathBuf)
    ensures canon(p) matches Some(c) ==> absolute(c),
{}

} // verus!
