"""Generates the dictionary harnesses (C14, C15, C16) from /repo/dicts and the accessor modules' names.

The dictionaries (a copy of /repo/dicts as first found, kept in fw/dicts) are the oracle: type numbers, value kinds and named values come
from them.  From the Rust sources only the spelling of the identifiers is taken."""
import os, re


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def load(repo):
    """-> [(module, attr name, number, kind, options)], [(module, attr, value name, number)]"""
    attrs, values = [], []
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dicts")
    for f in sorted(os.listdir(d)):
        m = re.match(r"dictionary\.(rfc\d+)$", f)
        if not m:
            continue
        for line in open(os.path.join(d, f)):
            w = line.split("#")[0].split()
            if not w:
                continue
            if w[0] == "ATTRIBUTE":
                attrs.append((m.group(1), w[1], int(w[2], 0), w[3], set(w[4].split(",")) if len(w) > 4 else set()))
            elif w[0] == "VALUE":
                values.append((m.group(1), w[1], w[2], int(w[3], 0)))
    return attrs, values


class Names:
    def __init__(self, repo):
        self.fns, self.consts = {}, {}
        c = os.path.join(repo, "radius/src/core")
        for f in os.listdir(c):
            if re.match(r"rfc\d+\.rs$", f):
                s = open(os.path.join(c, f)).read()
                mod = f[:-3]
                self.fns[mod] = {norm(x): x for x in re.findall(r"pub fn (\w+)", s)}
                self.consts[mod] = {norm(x): x for x in re.findall(r"pub const (\w+)", s)}

    def fn(self, mod, verb, attr):
        return "%s::%s" % (mod, self.fns[mod].get(norm(verb) + norm(attr), verb + "_" + attr.lower().replace("-", "_")))

    def const(self, mod, *parts):
        return "%s::%s" % (mod, self.consts[mod].get("".join(norm(p) for p in parts), "_".join(parts).upper().replace("-", "_")))


def kind_of(kind, opts):
    if kind == "vsa":
        return "vsa"
    if "encrypt=1" in opts:
        return "password"
    if "encrypt=2" in opts:
        return "tunnel_password"
    if "concat" in opts:
        return "concat"
    tag = "has_tag" in opts
    m = re.match(r"octets\[(\d+)\]$", kind)
    if m:
        return "fixed:" + m.group(1)
    k = {"string": "string", "octets": "octets", "integer": "integer", "ipaddr": "ipv4", "ipv6addr": "ipv6",
         "ipv6prefix": "ipv6_prefix", "ipv4prefix": "ipv4_prefix", "ifid": "fixed:8", "date": "date", "short": "short"}[kind]
    return ("tagged_" if tag else "") + k


GROUP = 6


def c14(repo):
    attrs, _ = load(repo)
    n = Names(repo)
    out = [open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", "c14_macros.rs")).read()]
    by = {}
    for mod, name, num, kind, opts in attrs:
        k = kind_of(kind, opts)
        if k in ("concat",):
            continue
        args = "%s, %d" % (n.const(mod, name, "TYPE"), num)
        if k != "vsa":
            args += ", %s, %s, %s" % tuple(n.fn(mod, v, name) for v in ("add", "lookup", "lookup_all"))
        args += ", " + n.fn(mod, "delete", name)
        fn = "t_%s_%s" % (mod, re.sub(r"\W", "_", name.lower()))
        if k.startswith("fixed:"):
            out.append("fixed!(%s, %s, %s);\n" % (fn, args, k.split(":")[1]))
            k = "fixed"
        else:
            out.append("%s!(%s, %s);\n" % (k, fn, args))
        by.setdefault(k, []).append(fn)
    unwind = dict(password=18, tunnel_password=20, ipv6=18, ipv6_prefix=12, fixed=19)
    group = dict(password=1, tunnel_password=1, date=1, short=2, vsa=1, tagged_string=2, fixed=3, ipv6_prefix=3, string=5)
    rows = []
    for k, fns in sorted(by.items()):
        g = int(os.environ.get("C14G", 0)) or group.get(k, GROUP)
        for i in range(0, len(fns), g):
            rows.append("        %s_%d [%d] => { %s };" % (k, i // g, unwind.get(k, 8), " ".join(f + "();" for f in fns[i:i + g])))
    out.append("proofs! {\n    quick {\n" + "\n".join(rows) + "\n    }\n}\n")
    return "".join(out)


def c15(repo):
    attrs, values = load(repo)
    n = Names(repo)
    home = {}
    for mod, name, num, kind, opts in attrs:
        home.setdefault(norm(name), (mod, name, num, kind_of(kind, opts)))
    out = ["//! Generated: C15, the named values of the dictionaries.\nuse crate::nd;\nuse radius::core::avp::AVP;\nuse radius::core::tag::Tag;\n",
           "use radius::core::*;\n"]
    by = {}
    for mod, attr, val, num in values:
        by.setdefault(norm(attr), []).append((mod, attr, val, num))
    rows = []
    for k, vs in sorted(by.items()):
        m, name, typ, kind = home[k]
        consts = ", ".join("%s as u32" % n.const(mod, attr, val) for mod, attr, val, num in vs)
        nums = ", ".join(str(num) for *_, num in vs)
        fn = "t_" + re.sub(r"\W", "_", name.lower())
        tag = ", None" if kind.startswith("tagged") else ""
        lead = "0, " if tag else ""
        out.append('''fn %s() {
    let named: [u32; %d] = [%s];
    let listed: [u32; %d] = [%s];
    let i = nd::between(0, %d);
    assert!(named[i] == listed[i], "a named value has the dictionary's number");
    let mut p = nd::packet(1, 7, &[3; 16], b"s");
    %s(&mut p%s, named[i]);
    let b = listed[i].to_be_bytes();
    match p.lookup(%d) {
        Some(a) => assert!(*a == AVP::from_bytes(%d, &[%sb[0], b[1], b[2], b[3]]), "a named value goes out as the dictionary's number"),
        None => panic!("a named value is carried by its attribute"),
    }
    nd::leak(p);
}
''' % (fn, len(vs), consts, len(vs), nums, len(vs) - 1, n.fn(m, "add", name), tag, typ, typ, lead))
        rows.append("        v%s [8] => %s();" % (fn[1:], fn))
    out.append("proofs! {\n    quick {\n" + "\n".join(rows) + "\n    }\n}\n")
    return "".join(out)


def c16(repo):
    attrs, _ = load(repo)
    n = Names(repo)
    out = [open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", "c16_macros.rs")).read()]
    quick, thorough = [], []
    k = 0
    for mod, name, num, kind, opts in attrs:
        if kind_of(kind, opts) != "concat":
            continue
        m = "m_" + re.sub(r"\W", "_", name.lower())
        out.append("spanning!(%s, %s, %d, %s, %s, %s);\n" % (m, n.const(mod, name, "TYPE"), num, *[n.fn(mod, v, name) for v in ("add", "lookup", "delete")]))
        for ln in (0, 1, 252, 253, 254, 506, 507, 600):
            (quick if k == 0 or ln in (0, 253, 254, 507) else thorough).append("        %s_len%d [8] => %s::split::<%d>();" % (m, ln, m, ln))
        for ln in (759, 760, 1013):
            thorough.append("        %s_len%d [8] => %s::split::<%d>();" % (m, ln, m, ln))
        quick.append("        %s_parts [8] => %s::parts();" % (m, m))
        quick.append("        %s_twice [8] => %s::twice();" % (m, m))
        quick.append("        %s_bare [8] => %s::bare();" % (m, m))
        k += 1
    out.append("proofs! {\n    quick {\n" + "\n".join(quick) + "\n    }\n    thorough {\n" + "\n".join(thorough) + "\n    }\n}\n")
    return "".join(out)
