import glob,os,re
# features that need more than the harness itself
DEPS={'p24':'["rpds/rayon", "dep:rayon", "dep:rayon-core"]'}
os.chdir(os.path.dirname(os.path.abspath(__file__)))
have=sorted(os.path.basename(f)[:-3] for f in glob.glob('src/p[0-9][0-9].rs'))
lib="""// Written by gen_lib.py.
#![allow(clippy::all)]
#[macro_use]
pub mod sym;
pub mod common;
#[macro_use]
pub mod coll;
pub mod r#gen;
pub mod kind;
pub mod sched;
"""
for x in have: lib+=f'#[cfg(feature = "{x}")]\npub mod {x};\n'
lib+="""
pub type Entry = extern "C-unwind" fn();

pub fn lookup(name: &str) -> Option<Entry> {
    let tables: &[&[(&str, Entry)]] = &[
"""
for x in have: lib+=f'        #[cfg(feature = "{x}")]\n        {x}::TABLE,\n'
lib+="""    ];
    tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
}
"""
open('src/lib.rs','w').write(lib)
c=open('Cargo.toml').read()
i=c.index("[features]");j=c.index("# What the sym")
c=c[:i]+"[features]\n"+"".join(f"{x} = {DEPS.get(x, '[]')}\n" for x in have)+"\n"+c[j:]
open('Cargo.toml','w').write(c)
