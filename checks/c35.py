"""C35: numbers mean the same in every form."""
import vp

ARR = ["C", "F", "reversed", "strided", "frozen", "backend", "tuple", "list"]
NUM = ["plain", "0d", "backend", "scalar"]
ARRAYS = ("grid", "unit", "tensor", "basis", "disc", "angles", "harm", "zs", "order")
HALF = dict(f16="f32")


def run(chk):
    r = vp.rng("C35")
    big = vp.THOROUGH
    a = vp.tlc("MCForms", workers=4, consts=dict(Vals="{0, 1, 9, 60, 100, 127}", Args="{1, 2}", MaxAsks=3) if big else {})
    chk.add_tlc(a)
    for v in ("Late", "Borrow"):
        f = vp.tlc("MCForms", consts={v: "TRUE"}, check=False)
        if "AnswersOK" not in f.violated:
            raise vp.CheckError(f"the faulty variant {v} of Forms is not caught:\n" + f.out[-2000:])
    pairs = sorted({tuple(f) for f in a.tagged("FORMS")})
    items = []
    for k in range(480 if not big else 7000):
        lossy = r.random() < 0.25
        one, tens = k % 4 == 0, k % 3 == 0
        N, M = (r.choice([9, 12]), 1) if one else (r.choice([7, 8]), r.choice([7, 9]))
        g = [[r.choice([1, 2, 4, 7, 9]) for _ in range(M)] for _ in range(N)]
        f = lambda lo, hi: [[r.randint(lo, hi) for _ in range(M)] for _ in range(N)]
        z, xy = [[0] * M for _ in range(N)], f(-1, 1)
        val = dict(period=r.choice([2, 3, 5]), basis=r.choice([[[2, 0], [0, 3]], [[3, 0], [1, 2]], [[2, 1], [-1, 3]], [[14, 0], [0, 12]]]), disc=[N, M], disc1=N, top=r.choice([1, 2]), sub=r.choice([1, 2, 3, 12]),
                   uniform=r.choice([2, 5, 16, 100]), grid=g, tensor=[[f(3, 6), xy, z], [xy, f(3, 6), z], [z, z, f(2, 9)]], d1=r.choice([1, 2]), d2=r.choice([1, 3]), d3=1,
                   wl=r.choice([3, 4, 7, 11]), angles=[r.choice([-30, 10, 25, 40]), r.choice([0, 35, 70, 125]), r.choice([0, 45, 90, -10])], nh=r.choice([3, 5] if one else [5, 9]),
                   order=[r.choice([0, 0, 1, -1]), 0], mu=1, d0=0, above=-1, below=r.choice([1, 2]),
                   unit=[[[a + b for b in range(3)] for a in range(2)], [[a * b for b in range(3)] for a in range(2)]], index=r.choice([1, 2, -3]), z=r.choice([0, 1]), zs=[0, 1])
        form = {}
        todo = sorted(val) + ["harm"]
        r.shuffle(todo)
        for n in range(0, len(todo), 2):
            p = r.choice(pairs)
            for name, t in zip(todo[n:n + 2], p):
                if t == "bool":
                    t = "int"
                if name not in ("grid", "tensor", "order"):
                    t = HALF.get(t, t)  # half precision: permittivity maps only
                form[name] = [t, r.choice(ARR if name in ARRAYS else NUM)]
        if k % 2:  # single precision only now and then
            for v in form.values():
                v[0] = dict(f32="f64", c64="c128", f16="i32").get(v[0], v[0])
        if k % 5 < 2:  # one argument in its form, the others plain
            keep = r.choice(todo)
            form = {n: v if n == keep else ["float", "list"] for n, v in form.items()}
        for n in ("order", "harm", "tensor"):
            if n in ("order", "harm", "tensor") and form[n][0] == "u8":
                form[n][0] = "i8"
        for n in form:
            if n in ("angles", "index", "basis", "z", "above") and form[n][0] == "u8":
                form[n][0] = "i8" if n != "angles" else "i32"
            if n == "index":  # documented as int
                form[n] = ["int", "plain"]
            if n == "basis" and form[n][1] in ("list", "tuple") and form[n][0] not in ("int", "float", "complex"):
                form[n][1] = "C"
        harm = None
        if k % 7 == 0 and not one:
            val["harm"] = [[0, 1, -1, 0, 0], [0, 0, 0, 1, -1]]
            val["nh"], harm = 5, True
        asks = sorted(set(r.sample(["orders", "complex", "dict", "totals", "order", "field", "fields", "grid", "stress", "eps", "constant", "harmonics", "transform", "area", "outer", "outer"], r.randint(2, 4))))
        if lossy:
            form["grid"][0] = {"f32": "c64", "f16": "c64", "complex": "complex", "c64": "c64"}.get(form["grid"][0], "c128")
        if "order" in asks and not one:  # one of those that are retained
            val["order"] = [0, 0]
        fo = r.choice(["original", "original", "tangent"] + ([] if one else ["pol", "jones"]))
        backend = ["numpy", "scipy", "autograd", "torch", "jax"][k // 4 % 5]
        for n in form:
            if n in ("order", "harm") and form[n][1] in ("backend", "reversed"):  # indices: lists or plain integer arrays
                form[n][1] = "C"
            if n == "harm" and form[n][0] in ("u8", "i8"):  # torch takes those for masks
                form[n][0] = "i64"
            if backend == "torch" and form[n][1] == "0d":  # arrays of another library, which torch does not mix with its own
                form[n][1] = "scalar"
        items.append(dict(k=k, one=one, tensor=tens and not (one and fo != "original"), harm=harm, lossy=lossy, val=val, form=form, ask=asks, last="bottom", over=[q for q in r.sample(asks, r.randint(1, len(asks))) if q != "eps"], f=fo,
                          backend=backend))
    items.sort(key=lambda x: x["backend"])
    out = chk.driver("forms.py", dict(items=items), timeout=850)
    if out is None:
        return
    rows, owner, starts = [], [], []
    for it, o in zip(items, out):
        starts.append(len(rows))
        rr = o if isinstance(o, list) else [dict(ev="begin", err=o["error"], form={}, right={})]
        rows += rr
        owner += [it] * len(rr)
    chk.traces(len(items))
    chk.sample(dict(form=items[0]["form"]))
    P = 4
    cut = [starts[j * len(starts) // P] for j in range(P)] + [len(rows)]
    vp.parallel(*[lambda a=a, b=b: vp.validate(chk, "FormsTrace", rows[a:b], describe=lambda row, x: dict(event={k: v for k, v in row.items() if k != "right"}, item=owner[a + x["line"] - 1])) for a, b in zip(cut, cut[1:])], n=P)
