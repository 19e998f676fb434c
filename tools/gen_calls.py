#!/usr/bin/env python3
"""Writes mc/src/calls.rs: one uniform entry per public function of the library (run by hand when the API changes;
the generated file is committed and the checks never regenerate it)."""
import re
OUT = []
SK = {"V": "FXMVECTOR"}
def split_args(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch in "<[(": d += 1
        if ch in ">])": d -= 1
        if ch == "," and d == 0:
            r.append(cur); cur = ""
        else: cur += ch
    r.append(cur)
    return [a.strip() for a in r if a.strip()]
BITS = re.compile(r"(Int\b|IntR\b|Int[XYZW]|Select|Permute|Swizzle|Merge|Shift|RotateLeft|RotateRight|Insert|Splat|VectorGet|VectorSet|Replicate|Load|Store|XMVectorZero|True)")
MASK = re.compile(r"^XMVector\d?(Near|Not)?(Equal|Greater|Less|InBounds|IsNaN|IsInf)")
def vkind(fn, p):
    d = re.match(r"XMVector([234])", fn)
    d = d.group(1) if d else "3"
    if not fn.startswith("XM") and re.fullmatch(r"(V|A|B)\d|Point|Origin|rayOrigin|Translation", p): return "G"
    if re.match(r"XMPlaneFromPoints|XMMatrixLook|XM.*IntersectLine|XM.*LinePointDistance|XMVector4Cross|XMPlaneFromPointNormal", fn) and not re.fullmatch(r"P\d?", p) and p != "Normal": return "G"
    if fn.startswith("XM") and BITS.search(fn): return "U"
    if fn.startswith("XMQuaternion") and re.fullmatch(r"Q\d?", p): return "Q"
    if "Quaternion" in p or p == "Rotation": return "Q"
    if p in ("Normal", "N1", "N2", "Direction", "NormalAxis", "Incident"): return "N" + d
    if (fn.startswith("XMPlane") and re.fullmatch(r"P\d?", p)) or re.fullmatch(r"(Reflection|Shadow)?Plane\d?", p): return "P"
    if p in ("Angles",): return "A"
    if p in ("T", "F", "G"): return "TR" if fn.startswith("XMQuat") else "T"
    if p in ("Axis",): return "N3"
    if p in ("Epsilon", "Bounds", "LengthMin", "LengthMax", "RefractionIndex", "Scaling", "Scale"): return {"RefractionIndex": "VRI", "LengthMin": "VLMIN", "LengthMax": "VLMAX"}.get(p, "VPOS")
    if p == "CosIncidentAngle": return "VUNIT"
    if fn.startswith("XMVector") and re.search(r"(ASin|ACos)", fn): return "VUNIT"
    if re.search(r"XMVector(Sin|Cos|SinCos|Tan)(Est)?$", fn) or "Angles" in fn: return "A"
    return "V"
FK = {"NearZ": "NEAR", "FarZ": "FAR", "ViewLeft": "NEG", "ViewBottom": "NEG", "ViewRight": "POS", "ViewTop": "POS", "ViewWidth": "POS", "ViewHeight": "POS",
      "FovAngleY": "FOV", "AspectRatio": "POS", "Angle": "ANG", "Pitch": "ANG", "Yaw": "ANG", "Roll": "ANG", "Rotation": "ANG", "ScalingOrientation": "ANG",
      "t": "FT", "f": "FT", "g": "FT", "LengthMin": "LMIN", "LengthMax": "LMAX", "RefractionIndex": "RI", "Scale": "POS", "ViewportMinZ": "Z0", "ViewportMaxZ": "ONE",
      "ViewportWidth": "POS", "ViewportHeight": "POS"}
def skip(n): return n in ("round_to_nearest",)
def entry(label, path, fn, args, ret, selfk=None):
    kinds, pre, call, post, off = [], [], [], [], 0
    W = {"M": 16, "MP": 16, "S": 4, "B": 6, "O": 10, "R": 13}
    def add(k):
        nonlocal off
        kinds.append(k)
        w = W.get(k, 4 if k in VK else 1) if k != "PTS" else 15
        o = off; off += w
        return o
    outs = []
    if selfk:
        o = add(selfk)
        pre.append(f"let me = g_{selfk}(a, {o});")
    for i, (p, t) in enumerate(args):
        t = t.strip()
        if t in ("FXMVECTOR", "GXMVECTOR", "HXMVECTOR", "XMVECTOR"):
            call.append(f"g_v(a, {add(vkind(fn, p))})")
        elif t.startswith("CXMVECTOR"):
            call.append(f"&g_v(a, {add(vkind(fn, p))})")
        elif t in ("FXMMATRIX", "XMMATRIX"):
            call.append(f"g_m(a, {add('MP' if p == 'Projection' else 'M')})")
        elif t.startswith("CXMMATRIX"):
            call.append(f"&g_m(a, {add('M')})")
        elif t == "f32":
            k = FK.get(p) or ("ANG" if p == "Value" and re.search(r"Scalar(Sin|Cos)", fn) else "FUNIT" if re.search(r"Scalar(ASin|ACos)", fn) else "F")
            if re.search(r"VectorSet|Replicate|FloatToHalf|XMMatrixSet$", fn): k = "W"
            call.append(f"g_f(a, {add(k)})")
        elif t == "&f32": call.append(f"&g_f(a, {add('W')})")
        elif t in ("u32", "usize"):
            k = {"Elements": "I4", "VSLeftRotateElements": "I4", "i": "I4", "E0": "I4", "E1": "I4", "E2": "I4", "E3": "I4", "DivExponent": "EXP", "MulExponent": "EXP"}.get(p)
            if not k:
                k = "I8" if p.startswith("Permute") else "I2" if p.startswith(("Select", "VectorIndex")) else "W"
            call.append(f"a[{add(k)}] as {t}")
        elif t == "bool": call.append(f"a[{add('I2')}] != 0")
        elif t == "HALF": call.append(f"a[{add('H')}] as u16")
        elif t in ("&BoundingSphere", "&BoundingBox", "&BoundingOrientedBox", "&BoundingFrustum"):
            k = {"S": "S", "B": "B", "O": "O", "F": "R"}[t[len("&Bounding")]]
            call.append(f"&g_{k}(a, {add(k)})")
        elif t == "&Self": call.append(f"&g_{selfcls}(a, {add(selfcls)})")
        elif t == "&mut Self":
            outs.append(selfcls); pre.append(f"let mut x{i} = Guard::new(gar_{selfcls}());"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); p_{selfcls}(o, &x{i}.v);")
        elif t.startswith("impl Iterator"):
            z = add("PTS"); pre.append(f"let pts = g_pts(a, {z});"); call.append("pts.iter()")
        elif t == "&mut f32": pre.append(f"let mut x{i} = Guard::new(0f32);"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); o.f(x{i}.v);")
        elif t == "&mut u32": pre.append(f"let mut x{i} = Guard::new(0u32);"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); o.u(x{i}.v);")
        elif t == "&mut XMVECTOR": pre.append(f"let mut x{i} = Guard::new(vu([0; 4]));"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); {{ let t = x{i}.v; o.v(t); }}")
        elif t.startswith("Option<&mut"): pre.append(f"let mut x{i} = Guard::new(vu([0; 4]));"); call.append(f"Some(&mut x{i}.v)"); post.append(f"x{i}.check(o); {{ let t = x{i}.v; o.v(t); }}")
        elif t.startswith("&mut [XMFLOAT3"): pre.append(f"let mut x{i} = Guard::new([f3([0.0; 3]); 8]);"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); for k in 0..8 {{ let t = x{i}.v[k]; o.f(t.x); o.f(t.y); o.f(t.z); }}")
        elif t.startswith("&[u32;"):
            n = int(re.search(r"(\d)", t[5:]).group(1)); zs = [add("W") for _ in range(n)]
            call.append("&[" + ", ".join(f"a[{z}]" for z in zs) + "]")
        elif t.startswith("&mut [u32;"):
            n = int(re.search(r"(\d)", t[9:]).group(1)); pre.append(f"let mut x{i} = Guard::new([0u32; {n}]);"); call.append(f"&mut x{i}.v"); post.append(f"x{i}.check(o); for k in 0..{n} {{ let t = x{i}.v[k]; o.u(t); }}")
        elif re.match(r"&(mut )?(Align16<)?XMFLOAT", t):
            ty = re.search(r"XMFLOAT[0-9X]+", t).group(0)
            n = {"XMFLOAT2": 2, "XMFLOAT3": 3, "XMFLOAT4": 4, "XMFLOAT3X3": 9, "XMFLOAT4X3": 12, "XMFLOAT3X4": 12, "XMFLOAT4X4": 16}[ty]
            al = "Align16" in t
            if "mut" in t:
                init = f"unsafe {{ std::mem::transmute::<[u32; {n}], {ty}>([0u32; {n}]) }}"
                if al: init = f"Align16({init})"
                pre.append(f"let mut x{i} = Guard::new({init});"); call.append(f"&mut x{i}.v")
                post.append(f"x{i}.check(o); {{ let w: [u32; {n}] = unsafe {{ std::mem::transmute_copy::<{ty}, [u32; {n}]>({'&x%d.v.0' % i if al else '&x%d.v' % i}) }}; for t in w {{ o.u(t); }} }}")
            else:
                zs = [add("W") for _ in range(n)]
                init = f"unsafe {{ std::mem::transmute::<[u32; {n}], {ty}>([{', '.join(f'a[{z}]' for z in zs)}]) }}"
                call.append(f"&Align16({init})" if al else f"&{init}")
        else:
            print("UNHANDLED", label, p, t); return
    c = f"{path}({', '.join(call)})" if not selfk else f"me.{fn}({', '.join(call)})"
    bits = fn.startswith("XM") and bool(BITS.search(fn))
    r = {"": f"{c};", "XMVECTOR": f"let r = {c}; o.v(r);" , "bool": f"let r = {c}; o.u(r as u32);", "u32": f"let r = {c}; o.u(r);", "f32": f"let r = {c}; o.f(r);",
         "XMMATRIX": f"let r = {c}; o.m(r);", "HALF": f"let r = {c}; o.u(r as u32);", "ContainmentType": f"let r = {c}; o.u(r as u32);", "PlaneIntersectionType": f"let r = {c}; o.u(r as u32);"}.get(ret)
    if r is None: print("UNHANDLED RET", label, ret); return
    OUT.append(f"    e(\"{label}\", {"true" if bits or MASK.search(fn) else "false"}, &[{', '.join('K::' + k for k in kinds)}], |a, o| {{ {' '.join(pre)} {r} {' '.join(post)} }});")
VK = {"G", "TR", "U", "Q", "N2", "N3", "N4", "P", "A", "T", "VPOS", "VUNIT", "V", "VRI", "VLMIN", "VLMAX"}
for f in ("vector", "misc", "matrix", "convert", "packed_vector", "collision"):
    s = open(f"/repo/src/{f}.rs").read()
    s = re.sub(r"//[^\n]*", "", s)
    s = re.sub(r"&mut FXMVECTOR", "&mut XMVECTOR", s); s = re.sub(r"->\s*FXMVECTOR", "-> XMVECTOR", s)
    ctx, selfcls = None, None
    for m in re.finditer(r"\n(impl[^{]*|pub mod \w+ |pub\(crate\) mod \w+ |mod \w+ )\{|\n[ ]*pub (?:const )?fn\s+(\w+)((?:<[^(]*>)?)\s*\(((?:[^()]|\([^()]*\))*)\)\s*(?:->\s*([^{]+?))?\s*\{", s):
        if m.group(1):
            ctx = m.group(1).strip(); continue
        fn, args, ret = m.group(2), split_args(re.sub(r"\s+", " ", m.group(4))), (m.group(5) or "").strip()
        if skip(fn) or fn.startswith("test"): continue
        if f == "collision" and ctx and "internal" in ctx: continue
        if f in ("vector", "matrix") and fn == "set": continue
        sk, label, path = None, fn, fn
        if f == "collision":
            mm = re.match(r"impl Bounding(\w+)", ctx or "")
            if mm:
                cls = "Bounding" + mm.group(1); selfcls = {"S": "S", "B": "B", "O": "O", "F": "R"}[mm.group(1)[0]]
                label = path = f"{cls}::{fn}"
                if args and args[0] == "&self": sk = selfcls; args = args[1:]
            else:
                label = path = f"triangle_tests::{fn}"
        entry(label, path, fn, [tuple(x.strip() for x in a.split(":", 1)) for a in args], ret, sk)
hdr = open(__file__.replace("gen_calls.py", "calls_head.rs")).read()
ks = sorted({k for l in OUT for k in re.findall(r"K::(\w+)", l)})
body = hdr.replace("/*ENTRIES*/", "\n".join(OUT))
open("/verif/mc/src/calls.rs", "w").write("// Generated by tools/gen_calls.py; do not edit.\n" + body)
print(len(OUT), "entries", ks)
