"""writes known_findings.json:  python3 tools/known.py  (hashes looked up by commit subject)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C01', 'debug output of base_expansion_dict', 'any base expansion in a debug=True algebra recursed for ever'),
 ('C01', 'shirokov_inverse keeps exact', 'shirokov_inverse returned rounded float coefficients'),
 ('C01', 'a scalar multivector made from a plain python number', 'ga.mv(2) + product calls failed: the scalar held a python int'),
 ('C01', 'one-dimensional `Cl`', 'Cl(1) / Cl(0, 1) built a basis with the wrong name and index'),
 ('C11', 'Mlt slot derivatives no longer switch off', 'after T.pdiff(1) or T.contract(1,2) every derivative on that curvilinear algebra dropped the basis derivatives; pdiff/contract of constant tensors gave 0'),
 ('C11', 'evaluate a Mlt with normalized reciprocal', 'T(a, b) in a non-orthogonal basis was off by a factor I**2 per slot'),
 ('C02', 'Ga.connection returns the cached value', 'the second identical Ga.connection() call raised UnboundLocalError'),
 ('C13', 'set_coef forgets what was cached', 'is_blade/is_versor/pure_grade and products after set_coef answered for the old coefficients'),
 ('C05', 'a normalized algebra no longer overwrites', "Ga(g=M, norm=True) overwrote the caller's matrix M"),
 ('C10', 'latex names of symbols do not depend', "latex of a symbol such as 'bethbar' depended on PYTHONHASHSEED"),
 ('C07', 'a refused interop Cl() call', 'a refused Cl(...) call still changed the session-wide dual mode'),
 ('C03', 'an interrupted Mlt slot creation', 'an interrupt while slots were created left a slot vector without coefficients'),
 ('C04', 'Lt.tr() no longer switches the connection', 'a derivative taken by another thread during L.tr() dropped the basis derivatives; tr() of coordinate-dependent maps was wrong'),
 ('C08', 'every captured LaTeX report holds its own', 'second report in a process failed or repeated the first; redirect twice lost stdout'),
 ('C09', 'xpdf() does not lose the report', 'captured output lost when the tex file could not be written; tex/pdf deleted although pdflatex/pdfcrop had failed'),
 ('C09', 'xpdf() accepts Return', 'xpdf() raised SyntaxError when Return was pressed at its prompt'),
 ('C09', 'gxpdf() does not lose the report', 'collected output dropped before the file was written; aux/log never removed; tex/pdf deleted after failures'),
  ('C01', 'grade parts, scalar part and coefficients of a multivector in base', 'scalar() and blade_coefs() of a base_rep() multivector were silently wrong, grade parts raised KeyError'),
 ('C11', 'apply a linear transformation to a multivector in base', 'L(A.base_rep()) left products of basis vectors unmapped'),
 ('C07', 'Simp.applymv() applies the profile', 'Simp.applymv(A) always raised NameError'),
 ('C16', 'Dop.TSimplify() accepts multivector', 'TSimplify() always raised TypeError (and would have forgotten that the operator acts to the left)'),
 ('C06', 'adding a Dop and a multivector of another algebra', 'grad + A with A of another algebra was accepted'),
 ('C04', 'algebras created by different threads at', 'two algebras created at the same time got the same name, so they compared equal and mixing them was accepted'),
 ('C12', 'GAeval() parenthesises every expression', 'a*b+c*d under *,^,<>| raised, a|b|c^d and c*((a)+(b)) got the wrong grouping, 2.5*a and a[0]|b^c failed or were wrong; the token counter raced between threads'),
 ('C13', 'set_coef() accepts a base-representation multivector', 'set_coef() on a base_rep() multivector of an orthogonal algebra raised ValueError'),
 ('C01', 'pure_grade() of a mixed multivector', 'pure_grade() of 1 + e1^e2 + e1 answered -1 instead of -2'),
 ('C05', 'base_rep() and blade_rep() return a multivector of', 'B = A.blade_rep(); B.set_coef(...) changed A as well'),
 ('C13', 'is_blade() and pure_grade() answer for multivectors in base', 'pure_grade() raised TypeError and is_blade() was False for products of base-representation multivectors'),
 ('C02','fix: diff(), pdiff() and pDiff() answer','Mv.diff(x) and Mv.pdiff(x) raised TypeError on coordinate-dependent bases; pDiff() raised KeyError for unexpanded and base-representation fields'),
 ('C16','fix: the components of a left-acting','components() of a left-acting Dop returned right-acting operators'),
 ('C02','fix: a submanifold can be defined by a vector','ga.sm(vector function, coords) raised UnboundLocalError'),
 ('C02','fix: a submanifold map may reuse','ga.sm() computed a wrong metric when the submanifold reuses coordinate names of its base, e.g. base g=[1,u**2], map [v,u]'),
 ('C16','fix: a multivector differential operator equals itself','D == D was False for a Dop with a coefficient such as (-th-2)*e_r'),
 ('C01','fix: products combine negative rational','ga.mvr()[0] | e_x in a skew algebra gave an unevaluated 6/5 + -1*(1/5), so it was not equal to 1 and (it - 1).is_zero() was False'),
 ('C11','fix: a dictionary defining','ga.lt({basis symbol: multivector}) raised on use, multivector keys were ignored, omitted images printed as 0 but acted as the identity'),
 ('C11','fix: a named Mlt has its own','Mlt(name, ga, nargs=2) after a Mlt with 3 slots was multiplied by the coefficients of the third slot'),
 ('C11','fix: vector-valued multilinear functions','F + F and 2*F of a vector-valued Mlt became the scalar (F + F) | a_1'),
 ('C11','fix: outer and inner products of scalar-valued','T ^ S and T | S raised TypeError for scalar-valued Mlt'),
 ('C11','fix: print and expand every Mlt','printing a zero, single-term or multivector-valued Mlt raised or printed a wrong component; expand() of a multivector-valued one raised'),
 ('C11','fix: linear transformations given by a versor','ga.lt(versor) + L and ga.lt(versor) - L raised NotImplementedError'),
 ('C11','fix: a linear function whose images','ga.lt(V) for a versor V with coordinate-dependent coefficients was refused because the trivector part of the images vanishes only after simplification'),
 ('C14','fix: enhance_print(None) disables','enhance_print(None) left the escape sequences of an earlier enhance_print() in the printed forms'),
 ('C09','fix: xpdf(debug=True) keeps','xpdf(debug=True) lost the captured output when printing its own messages failed'),
 ('C09','fix: xpdf and gxpdf touch only','xpdf and gxpdf with a name without .tex, with a blank or with .tex/.py inside removed or left files that were not (or were) theirs'),
 ('C06','fix: refuse multilinear maps and Lt','multilinear maps of different algebras could be added, multiplied and compared, and Lt * Mv accepted a multivector of another algebra'),
 ('C04','fix: keep the slot variables of multilinear maps','two threads, or a thread and an interrupt, inside Mlt.increment_slots left slot variables and their coefficients out of step'),
 ('C01','fix: accept immutable and sparse matrices as metric','a metric given as an immutable or sparse matrix was taken as the diagonal of an n*n dimensional algebra'),
 ('C05','fix: Pdop keeps a copy','changing the dictionary a Pdop was made from changed the operator'),
 ('C15','fix: LaTeX of a differential operator printed','the LaTeX of an operator with a term 1*e_x printed e_x e_x 1'),
 ('C15','fix: differential operators with coefficients in base','printing or splitting an operator whose coefficient is in base representation raised ValueError'),
 ('C15','fix: LaTeX with fold_frac_powers','(x + 1)**(3/2) printed as x + 1^{3/2} with fold_frac_powers'),
 ('C16','derivative of a field by a variable that is not a coordinate','on coordinates with a connection, the zero scalar operator (Sdop - Sdop) applied to a field, and Mv.pdiff / ga.pDiff / Pdop by a parameter that is not a coordinate, raised ValueError'),
 ('C05','the identity operator returned its argument itself','Pdop({})(A) and an Sdop with only an identity term of coefficient one returned the multivector A itself, so that set_coef on the result changed A'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for p, key, text in FIXED:
    c = [l for l in log if (' ' + key.replace('`', '')) in l.replace('`', '')]
    assert len(c) == 1, (key, c)
    h = c[0].split()[0]
    out.append({'id': 'fixed-' + h, 'property': p, 'status': 'fixed', 'text': 'fixed: property=%s %s %s' % (p, h, text)})
with open(os.path.join(ROOT, 'tools', 'findings_open.json')) as f:
    out += json.load(f)
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump({'findings': out}, f, indent=1)
    f.write('\n')
