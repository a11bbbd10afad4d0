import importlib,sys,json,re
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
B={ # bounds, why beyond tests
"C01":("29 option combinations (pairwise covering array, `sa/configs.py`) × branches; lengths arbitrary.","A test sees one input type and one branch; here every store on every path, including raising ones and aliases made five calls deep (`np.asarray`, `.mask`, `dict(robust_kw)`), is judged."),
"C02":("As C01; table of constituents arbitrary.","A leak shows only in a later call with other options; the store or the shared object itself is the violation."),
"C03":("Covering array (≈80 combinations in the quick tier); flows through control dependences included.","Hash-order, clock or uninitialised memory rarely show twice in one process."),
"C04":("Covering array × verbose in {False, arbitrary}.","Printing on rare branches (too few constituents, uneven times, no convergence) needs data that take them."),
"C05":("One request per kind of malformation listed in the property, data arbitrary.","'Never silently reinterpreted' quantifies over all data; a test shows one refusal."),
"C06":("Covering arrays of strength 2 (quick) and 3 (thorough) over all documented option values and input kinds.","The option product has more than 10^5 combinations; tests run a dozen."),
"C07":("`constit='auto'` with arbitrary numbers of constituents; lists of up to five names with explicit orders.","Misalignment shows only for particular orders and inference layouts."),
"C08":("Lists of up to five names, up to three inferred in different order.","Wrong covariance columns give plausible intervals; no test has an expected value for them."),
"C09":("All subsets of {NaN, infinite, masked} in each of t, u, v that matter (pairs quick, more thorough).","Needs the right combination of kinds of missing in two arrays."),
"C10":("Representations listed × scalar/vector × missing or not; whole milliseconds.","Equality for every instant rather than for sampled dates."),
"C11":("Covering array; weights and thresholds included.","An absolute tolerance or floor (1e-10) shows only for tiny or huge data."),
"C12":("Covering array; arbitrary numbers of samples and constituents, with and without inference.","Equality of two formulas for all inputs; tests compare to 2 digits for one series."),
"C13":("All nine nodal × phase combinations, reconstruct included.","The options agree near the reference time, so short records cannot tell them apart."),
"C14":("Covering array plus the weight functions for arbitrary residuals and tuning constants.","Ranges hold for every input or not at all; boundary values are measure zero."),
"C15":("Arbitrary number of constituents plus lists of up to four; arbitrary thresholds.","Thresholds and energies differ only for particular spectra of amplitudes."),
"C16":("Latitude interval [-90, 90] split at the branch conditions of the code.","One bad latitude out of a continuum."),
"C17":("Two disjoint bands with arbitrary edges; lists of constituents; scalar/vector; even/uneven.","Expected intervals under coloured noise are unknown to tests."),
"C18":("Four listings of references and inferred constituents, ratios symbolic.","The constraint must hold for any ratio and listing order."),
"C19":("Iteration limits 1–6 unrolled, every way out of the loop a guarded alternative.","Which way the loop ends depends on data nobody can enumerate."),
"C20":("Symbolic time; five symbolic constituents.","Derivative identity for all times."),
"C21":("Symbolic coefficients and standard errors.","First-order identity for all coefficients."),
"C22":("All operation sequences of length ≤2 (3 sampled in thorough) from several contents.","Histories, not single calls."),
"C23":("Five symbolic constituents for the construction; the full shipped table for its own consistency.","Every name, not the eight that tests fit."),
"C24":("Arbitrary numbers of times and constituents.","Independence of all other requested times."),
"C25":("Same options for both kinds of series, covering array.","Relation between two analyses for every series."),
"C27":("Two constituents with arbitrary coefficients, one- and two-dimensional, white and banded noise, with and without trend, ordinary and iteratively weighted least squares.","Random draws make a test compare loosely; a swapped cross-covariance or an angle wrapped the wrong way shows only for particular ellipses."),
"C26":("Five symbolic table rows in three layouts, lists of requests in different order.","The shipped table exercises one layout; nearest mistakes (neighbouring satellite rows) vanish for most constituents."),
}
out=[]
for i in range(1,28):
    p="C%02d"%i; m=importlib.import_module('sa.rules.'+p.lower())
    e=json.load(open(f'/verif/evidence/{p}.json'))
    b,w=B[p]
    out.append(f"### {p} — {props[p]['title']}\n\n{m.EXPLANATION.strip()}\n\n*Bounds:* {b} *Assumed:* {'; '.join(m.ASSUMPTIONS) or 'nothing beyond the trusted base'}. *Why beyond tests:* {w} *Cost:* {e['wall_s']:.0f} s.\n")
src=open('/verif/mkmanifest.py').read()
na=eval(src[src.index('NA = {')+5:src.index('}\n',src.index('NA = {'))+1])
nat="\n".join(f"- **{k} {props[k]['title']}** — {v}" for k,v in na.items())
kf=json.load(open('/verif/known-findings.json'))
fx="\n".join("- "+f for f in kf['fixed'])
kn="\n".join(f"- {f['property']} `{f['key']}`: {f['what']}" for f in kf['findings'])
top=open('/verif/tools/design_top.md').read()
open('/verif/DESIGN.md','w').write(top.replace('@PROPS@',"\n".join(out)).replace('@NA@',nat).replace('@FIXED@',fx).replace('@KNOWN@',kn))
import subprocess; subprocess.run([sys.executable,'/verif/tools/design.py'])
