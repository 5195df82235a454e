"""Writes harness/src/models_gen.rs: model structs drawn from a grammar of what the derive accepts."""
import os, random
R = random.Random(20261119)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ["a", "b", "w", "bias", "params", "parameters", "device", "r#type", "r#move", "inner", "layers", "x1", "_hidden",
         "value", "gradient", "skip", "parameter", "model", "z9", "field_updater", "stats", "self_", "long_field_name_number_twelve", "k"]
# another stream, so that the structs stay the same
F = random.Random(11)
SKIPS = ["#[parameter(skip)]"] * 5 + ["#[parameter(skip,)]", "#[parameter()] #[parameter(skip)]", "#[parameter(frozen, skip)]", "#[parameter(skip, frozen)]"]
SERDE = ["#[serde(skip)]", "#[serde(skip_serializing)]", "#[serde(rename = \"skip\")]", "#[serde(skip_serializing, rename = \"parameter\")]", "#[cfg_attr(all(), serde(skip))]"]
ATTRS = ["#[allow(unused, dead_code)]", "#[cfg_attr(all(), allow(dead_code))]", "/// documented", "#[allow(dead_code)]", "#[doc(hidden)]", "#[cfg(all())]", "#[doc = \"parameter(skip)\"]", "/// #[parameter(skip)]"]
SKIP_TYPES = ["Parameter<'d>", "Vec<Parameter<'d>>", "String", "u32", "Option<Parameter<'d>>", "HashMap<String, Parameter<'d>>", "f32"]
out = ["// written by tools/gen_models.py\n"]
done = []  # (name, type as used by others)
table = []
N = 176
BIG = {170: 17, 171: 20, 172: 33, 173: 40, 174: 66, 175: 130}
for i in range(N):
    name = f"S{i}"
    gen = R.choices(["plain", "type", "where", "const", "two", "lt2", "dflt", "cfirst", "cdflt", "ltb"], [10, 2, 2, 2, 1, 2, 2, 2, 1, 1])[0]
    if i < 6:
        gen = "plain"
    params, where, use = "'d", "", f"{name}<'d>"
    gty = []
    decl = None
    if gen == "type":
        params = "'d, M: Model<'d>"; gty = ["M"]
    elif gen == "where":
        params = "'d, M"; where = " where M: Model<'d>"; gty = ["M"]
    elif gen == "const":
        params = "'d, const N: usize"
    elif gen == "two":
        params = "'d, A: Model<'d>, B"; where = " where B: Model<'d>"; gty = ["A", "B"]
    elif gen == "lt2":
        params = "'d, 's"
    elif gen == "ltb":
        params = "'d, 's: 'd"
    elif gen == "dflt":
        params = "'d, M: Model<'d>"; decl = "'d, M: Model<'d> = Vec<Parameter<'d>>"; gty = ["M"]
    elif gen == "cfirst":
        params = "'d, const N: usize, M: Model<'d>"; gty = ["M"]
    elif gen == "cdflt":
        params = "'d, const N: usize"; decl = "'d, const N: usize = 3"
    n = R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) if i > 3 else [1, 2, 2, 3][i]
    names = R.sample(NAMES, min(n, len(NAMES)))
    if i in BIG:
        names = names + [f"f{j}" for j in range(BIG[i] - len(names))]
    fields = []
    need_marker = True
    for f in names:
        kind = R.choices(["param", "vec", "vecvec", "model", "vecmodel", "vecvecmodel", "generic", "vecgeneric", "skip"],
                         [6, 4, 1, 5 if done else 0, 4 if done else 0, 1 if done else 0, 3 if gty else 0, 2 if gty else 0, 3])[0]
        if i in BIG and R.random() < 0.9:
            kind = R.choices(["param", "vec", "skip"], [8, 1, 3])[0]
        skip = False
        sub = R.choice(done)[1] if done else None
        if kind == "param": t = R.choice(["Parameter<'d>"] * 4 + ["pu::Parameter<'d>", "Alias<'d>", "Box<Parameter<'d>>"])
        elif kind == "vec": t = "Vec<Parameter<'d>>"
        elif kind == "vecvec": t = "Vec<Vec<Parameter<'d>>>"
        elif kind == "model": t = R.choice([sub, sub, sub, f"Box<{sub}>"])
        elif kind == "vecmodel": t = f"Vec<{sub}>"
        elif kind == "vecvecmodel": t = f"Vec<Vec<{sub}>>"
        elif kind == "generic": t = R.choice(gty)
        elif kind == "vecgeneric": t = f"Vec<{R.choice(gty)}>"
        else:
            skip = True
            t = R.choice(SKIP_TYPES + ([sub, f"Vec<{sub}>"] if sub else []))
        fields.append([f, t, skip])
    # everything generic must be used
    for g in gty:
        if not any(g == t.strip("Vec<>") for _, t, _ in fields):
            fields.append([f"g_{g.lower()}", g, False])
    if gen in ("const", "cfirst", "cdflt"):
        fields.append(["arr", "[u32; N]", True])
    if gen in ("lt2", "ltb"):
        fields.append(["name", "&'s str", True])
    fields.append(["marker", "PhantomData<&'d ()>", True])
    R.shuffle(fields)
    serde = R.random() < 0.4
    out.append(f"#[derive({R.choice(['Model, Serialize', 'Serialize, Model']) if serde else 'Model'})]\n#[allow(dead_code)]\npub struct {name}<{decl or params}>{where} {{\n")
    for f, t, skip in fields:
        attrs = R.sample(ATTRS, R.choice([0, 0, 0, 1, 2]))
        if skip:
            attrs.insert(R.randint(0, len(attrs)), F.choice(SKIPS))
        if serde:
            local = t in ("Parameter<'d>", "Vec<Parameter<'d>>", "String", "u32", "f32", "PhantomData<&'d ()>", "Vec<Vec<Parameter<'d>>>")
            if not local or R.random() < 0.3:
                attrs.insert(R.randint(0, len(attrs)), R.choice(SERDE if local else SERDE[:2] + SERDE[4:]))
        for a in attrs:
            out.append(f"    {a}\n")
        out.append(f"    {R.choice(['', 'pub ', 'pub(crate) '])}{f}: {t},\n")
    out.append("}\n")
    iparams = params
    conc_bound = ""
    if gty:
        conc_bound = " + ".join([])
    args = {"plain": "'d", "type": "'d, M", "where": "'d, M", "const": "'d, N", "two": "'d, A, B", "lt2": "'d, 's", "ltb": "'d, 's", "dflt": "'d, M", "cfirst": "'d, N, M", "cdflt": "'d, N"}[gen]
    wh = where
    extra = ", ".join(f"{g}: Gen<'d>" for g in gty)
    if extra:
        wh = (where + ", " if where else " where ") + extra
    out.append(f"impl<{iparams}> Gen<'d> for {name}<{args}>{wh} {{\n")
    out.append("    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {\n")
    out.append(f"        {name} {{\n")
    for f, t, skip in fields:
        out.append(f"            {f}: Gen::make(s, m, depth + 1),\n")
    out.append("        }\n    }\n")
    out.append("    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {\n        let _ = (&f, skipped);\n")
    for f, t, skip in fields:
        out.append(f"        Gen::visit(&self.{f}, {'true' if skip else 'skipped'}, f);\n")
    out.append("    }\n}\n\n")
    plain = [d for d in done]
    def conc():
        return R.choice(plain)[1]
    use = {"plain": f"{name}<'d>", "type": f"{name}<'d, {conc() if gty else ''}>", "where": f"{name}<'d, {conc() if gty else ''}>",
           "const": f"{name}<'d, {R.randint(0, 4)}>", "two": f"{name}<'d, {conc() if gty else ''}, {conc() if gty else ''}>", "lt2": f"{name}<'d, 'static>", "ltb": f"{name}<'d, 'static>", "dflt": f"{name}<'d>",
           "cfirst": f"{name}<'d, {R.randint(0, 4)}, {conc() if gty else ''}>", "cdflt": f"{name}<'d>"}[gen]
    if gen in ("type", "where") and R.random() < 0.4:
        use = f"{name}<'d, Vec<Parameter<'d>>>"
    # keep nesting bounded: deep types are not nested again
    depth = use.count("<")
    if depth <= 6:
        done.append((name, use))
    table.append((name, use.replace("'d", "'static")))
out.append("pub const TABLE: &[(&str, Runner)] = &[\n")
for n, u in table:
    out.append(f"    (\"{n}\", probe::<{u}>),\n")
out.append("];\n")
open(f"{root}/harness/src/models_gen.rs", "w").write("".join(out))
print(len(table))
