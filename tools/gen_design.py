"""writes DESIGN.md (run with /opt/venv/bin/python)"""
import json, glob, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ent = {}
def D(pid, text): ent[pid]=text.strip()
D('C01', """
*Oracle*: `ref.to_m/from_m`, the five laws in plain Python with CODATA-2019 constants written out in the harness; no code of the package is used. Tolerance 1e-9 relative or the rounding step the package documents (1e-9 eV, 1e-15 m).
*Workload*: all 441 (source spelling, target spelling) pairs are enumerated; on top random values over 30 decades, 1..5000 elements, five container kinds, integer dtypes, zero and infinity mixed into arrays, and conversions made through `convert_to`, `convert_from`-built objects and through two-step conversions which have to agree.
*Beyond tests*: the tests sample one value per pair; integer arrays, wavenumber, cm and values whose reciprocal over/underflows were all wrong on the base commit.""")
D('C02', """
*Oracle*: a trace specification with one piece of state, the physical wavelengths at creation. After every operation the stored values, the labels (quantity, unit, axis label by token) and a probing conversion are compared with it; a refused or returning conversion must leave a byte-identical object.
*Workload*: histories of 3..30 operations (in place, returning, refused, containment, label requests), long chains of in-place conversions to expose drift.""")
D('C03', """
*Oracle*: the table of 5 quantities and their units in `mon/ref.py`; a combination is either in it (must be accepted, any case) or not (must raise ValueError).
*Workload*: enumerated completely: 12 quantity names x 40 unit names at every entry point (Spectrum, convert_to, convert_from, Constant, Interpolation, models, material queries), and 13 models x 21 quantity/unit pairs.""")
D('C04', """
*Oracle*: the range known to the generator; a request is legal iff all values are inside.
*Workload*: data of every kind (constant, table, order-k table, every model, materials with two parts, files) with ranges in all units; requests in all units with 0, 1 or several offending values at any position, distances from 1e-6 relative to a factor of 10; the end points themselves after conversion in both directions (rounding of converted end points was a defect of the base commit).""")
D('C05', """
*Oracle*: independent piecewise-linear interpolation of the sorted table in exact order; for order>1 a polynomial of at most that degree plus exact node values.
*Workload*: tables of 1..5000 rows, ascending, descending, shuffled, close abscissae, integer or float, via `Interpolation`, `Material(tabulated_*)`, query in all units, nodes and interior points. The tolerance is the change of the interpolant over the query's own rounding, so steep tables cause no alarm.""")
D('C06', """
*Oracle*: the formulas of refractiveindex.info 1-9, Drude, Drude-Lorentz, Tauc-Lorentz (imaginary part) and Fano written separately; the real part of Tauc-Lorentz is compared with a numerical Kramers-Kronig integral (adaptive quadrature of the imaginary part), so no closed form is trusted.
*Workload*: random parameters and term counts, scalar/one-element/array, five units, three ways of entry (class, model_kw, yaml).""")
D('C07', """*Oracle*: metamorphic: element i of a batch against the evaluation of that element alone, reversed, shuffled, repeated, split, in another container. Covers data classes, all materials, extrapolated materials and effective media; batch sizes 1..5000 so that size-dependent fast paths are reached.""")
D('C08', """*Oracle*: eps = (n+ik)^2, native representation equal to the reference data, sign of the root for passive materials, missing part exactly zero. *Workload*: all ways to define a material, all quadrants of permittivity (gain, loss, metals, negative real axis, zero), n/k or eps_r/eps_i drawn independently.""")
D('C09', """*Oracle*: snapshots (bytes of arrays, deep copies of dictionaries) around each call; first answer to each question kept and compared bit by bit with every repetition; reference values in addition, so that a wrong first answer is seen as well.
*Workload*: histories over a pool of live materials, spectra and arrays that are shared on purpose. *Threads*: the only place with schedules: several threads repeat known queries while a trace function injects delays at source lines of the package; the evidence counts the delays injected and the distinct interleavings (order in which threads entered the package) seen. There is no native code and the interpreter serialises byte codes, hence no race detector: a lost update shows up as a changed answer, which is what is monitored.""")
D('C10', """*Oracle*: number of sources given decides; type, shape and name defects have their own exception type. *Workload*: all 1024 subsets of the ten sources enumerated, values include zero, negative, complex, numpy scalars; absent sources left out or None.""")
D('C11', """*Oracle*: k = alpha*lambda/(4 pi) with lambda from `ref`. Direct tables and the four file types, all units, rows in any order.""")
D('C12', """*Oracle*: intersection of the parts' ranges known to the generator (in the material's default unit, ascending), then evaluation at both ends/inside must succeed and beyond must be refused; sample spectrum inside and covering. Materials are also observed after removal of absorption, extrapolation, file loading and mixing.""")
D('C13', """*Oracle*: values before = values after inside the old range (also mixed requests), polynomial continuation for polynomial data, evaluable at the target and refused beyond, refusals leave values and range as they were. *Bounds*: spline order 1-5; polynomial continuation is judged with the amplification bound stated in the assumptions (a tighter one gave false alarms, see below).""")
D('C14', """*Oracle*: exact zero imaginary part, bit-identical real part over the real part's range, complex materials and other materials bit-identical.""")
D('C15', """*Oracle*: residual of the mixing equation evaluated with the constituents' permittivities observed at the same spectrum, passivity of the root, limits f=0/1, Wiener bounds for positive dielectrics, refusal of f outside [0,1] and of singular mixtures. Media of media included.""")
D('C16', """*Oracle*: representation, range and values of the reloaded material against the original *and* against the generator's reference (so that a symmetric loss in writer and reader is seen). Refused writes: the target file has to be byte-identical afterwards.""")
D('C17', """*Oracle*: fields set = fields read after each of 1-6 cycles; all 308 single hostile text pieces (field x piece x file type) are enumerated besides the random histories.""")
D('C18', """*Oracle*: the generator derives the file and the expected content from the same abstract description; text produced by the harness, never by the package's writer.""")
D('C19', """*Oracle*: each defective file has a valid twin (differing in the defect only) that has to load, the defective one has to raise; for row order/repetition the expected rows are computed by the stated rule.""")
D('C20', """*Oracle*: rows expected from the abstract tree; bounds, reference n/k by `ref`; each row is loaded and evaluated. The database lives in a scratch directory, HOME points to it.""")
D('C21', """*Oracle*: model of the rows followed over build/edit/save/reopen/partial rebuild; file bytes before and after opening. Hostile texts in all text fields.""")
D('C22', """*Oracle*: online model (row -> alias) after each of up to 40 operations, uniqueness invariant over the whole column after each step, look-ups checked by material identity (each row's file holds a distinct constant signature).""")
D('C23', """*Oracle*: written = read, precedence, defaults; acceptance of a configuration iff all fields valid; a snapshot (names, sizes, contents) of home, database and temporary directory around each validation. Fresh processes with missing HOME sub folders import the package.""")
D('C24', """*Oracle*: a scripted user records every prompt and answer; on return the stored configuration is compared with the confirmed answers, example files are loaded and compared with the literature values kept in the harness. End-of-input faults are injected at each prompt. `git clone` is replaced by a stand-in in a scratch directory.""")
D('C25', """*Oracle*: line data and labels read back from the matplotlib artists (Agg back end), all axes inspected before and after.""")
D('C26', """*Oracle*: recorded metadata + representation; all ordered pairs in a pool, `==`, `!=`, membership.""")
D('C27', """*Oracle*: online model of table/grid/file. qgrid is not installed, so the monitor puts a recording stand-in in `sys.modules`; the refusal without the package is observed for real.""")
D('C28', """*Oracle*: bytes written to streams with ASCII/Latin-1/UTF-8 encoding.""")
D('C29', """*Oracle*: interference: after each overwrite of something the caller owns or was handed out, all answers are compared bit by bit with those before. Array views/broadcasts of inputs are included.""")
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
seeded={}
for f in sorted(glob.glob(H+'/seeded/*/meta.json')):
    d=json.load(open(f)); seeded.setdefault(d['property'],[]).append(os.path.basename(os.path.dirname(f)))
import sys
sys.path.insert(0,H); sys.path.insert(0,'/repo/src'); os.environ['HOME']='/tmp/h'
import importlib
D_=os.path.join(H,'tools','design')
rd=lambda n: open(os.path.join(D_,n)).read()
out=open(os.path.join(H,'DESIGN.md'),'w')
out.write(rd('head.md'))
for p in props:
    i=p['id']; m=importlib.import_module('mon.props.'+i.lower())
    out.write('### %s %s\n\n%s\n'%(i,p['title'],ent[i]))
    s=[]
    for k,v in m.SCENARIOS.items():
        q,t=v['quick'],v['thorough']
        q=q() if callable(q) else q; t=t() if callable(t) else t
        s.append('%s %d/%d%s'%(k,q,t,' (complete enumeration)' if v.get('exhaustive') else ''))
    out.write('*Cases quick/thorough*: '+'; '.join(s)+'.\n')
    if m.ASSUMPTIONS: out.write('*Bounds*: '+'; '.join(m.ASSUMPTIONS)+'.\n')
    out.write('*Must have been observed (else exit 2)*: '+', '.join(m.REQUIRED)+'.\n')
    if i in seeded: out.write('*Planted changes caught*: '+', '.join(seeded[i])+'.\n')
    out.write('\n')
kf=json.load(open(os.path.join(H,'known_findings.json')))
out.write(rd('tail.md').replace('{nfixed}',str(len(kf['fixed']))).replace('{nseed}',str(sum(map(len,seeded.values())))).replace('{strength}',rd('strength.md').rstrip()).replace('{mutres}',rd('mutation.md').rstrip()))
out.close()
