import re,os
p='/verif/kani/src/lib.rs'
mods=sorted(f[:-3] for f in os.listdir('/verif/kani/src') if re.match(r'c\d\d',f))
NOSTD={'c18','c19'}
at=lambda m: '#[cfg(not(feature = "std"))]\n' if m in NOSTD else ''
at2=lambda m: '    #[cfg(not(feature = "std"))]\n' if m in NOSTD else ''
open(p,'w').write('''#![allow(dead_code, unused_imports, unused_macros, static_mut_refs, deprecated)]
#[macro_use]
pub mod shim;
#[macro_use]
pub mod ghost;

'''+''.join(at(m)+'pub mod %s;\n'%m for m in mods)+'''
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
'''+''.join(at2(m)+'    v.extend_from_slice(%s::TAB);\n'%m for m in mods)+'''    v
}
''')
