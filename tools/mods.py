import os
d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness/src/props')
ids=sorted(f[:-3] for f in os.listdir(d) if f.startswith('p') and f[1:3].isdigit())
open(d+'/mod.rs','w').write("use crate::runner::Prop;\n"+"".join(f"pub mod {i};\n" for i in ids)+"pub fn all() -> Vec<Prop> {\n    vec!["+", ".join(f"{i}::prop()" for i in ids)+"]\n}\n")
