"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "omega-sum-shortcut": "sums whose summands repeat one object", "round-keeps-zero-sv": "zero trains with inflated ranks", "tt-error-flags-exclusive": "both flags drawn independently",
 "add-empty-sum-aliases": "`touch`: change in place what an operation made", "tt-norm-cached": "`again`: repeat an observation after an in-place change", "cores-share-seed": "correlations between parts",
 "cp-gather-broadcast": "gather of 0..4 rows of every width", "tucker-mul-factor": "size checked after scaling", "neg-integer-unsigned": "dtypes in the pools",
 "sketch-div-int": "integer divisors", "hash-int-loop": "index types and batch sizes crossed", "hilbert-dtype": "Hilbert tensors of large modes", "gmres-scales-basis": "operands observed after solving",
 "container-T-square": "blocks with equal left and right ranks", "orth-sketch-destroys-drm": "given random matrices in `call`, observed after every event",
 "relative-error-tiny": "operands of dot/norm/error scaled by powers of two", "slice-of-slice": "slices taken through earlier slices", "zero-shared-cores": "poke one part, observe the others",
}
MISSED.update(json.load(open(os.path.join(V, "tools/missed.json"))) if os.path.exists(os.path.join(V, "tools/missed.json")) else {})
rows = ["| id | property | needs | first missed; what was added |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
L = sorted((json.load(open(os.path.join(S, b, "meta.json")))["property"], b) for b in os.listdir(S) if os.path.exists(os.path.join(S, b, "meta.json")))
for p, b in L:
    m = json.load(open(os.path.join(S, b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, p, m["needs"].replace("|", "/")[:110], MISSED.get(b, "")))
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", "<!-- table -->\n<!-- end -->")
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(f, "w").write(s)
print(len(L), "bugs")
