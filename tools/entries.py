#!/usr/bin/env python3
"""regenerates the entry registry at the end of harness/src/lib.rs"""
import glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
s = open('src/lib.rs').read()
i = s.index("pub mod util;\n") + len("pub mod util;\n")
mac = '''macro_rules! entries {
    ($($(#[$c:meta])* $f:path => $n:literal),* $(,)?) => {
        pub fn entry(n: &str) -> Option<extern "C" fn()> {
            match n { $($(#[$c])* $n => Some($f),)* _ => None }
        }
    };
}
'''
mods, out = "", "entries! {\n"
for f in sorted(glob.glob('src/h_*.rs')):
    m = os.path.basename(f)[:-3]
    g = '#[cfg(feature = "web")] ' if m == "h_web" else ""
    mods += "%spub mod %s;\n" % (g, m)
    for n in sorted(set(re.findall(r'fn (h_\w+)\(\)', open(f).read()))): out += '    %s%s::%s => "%s",\n' % (g, m, n, n)
open('src/lib.rs', 'w').write(s[:i] + mac + mods + out + "}\n")
