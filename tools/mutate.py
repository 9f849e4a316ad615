"""Measures what the checks notice: applies small random edits (one at a time)
to a scratch copy of /repo and runs the checks of the edited module on it.
Only an evaluation of the checks - no check uses this.

usage: mutate.py OUTFILE N SEED [MODULE...]   (MODULE e.g. spectra.py)"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time

CHECKS = {
    'broadening.py': 'C17 C18', 'crystal.py': 'C22 C11 C09 C10 C07',
    'debye_waller.py': 'C15 C10 C09 C11 C07',
    'force_constants.py': 'C01 C02 C06 C03 C08 C07 C04 C11 C10 C09',
    'io.py': 'C10 C25', 'plot.py': 'C28', 'powder.py': 'C20 C07',
    'qpoint_frequencies.py': 'C14 C16 C18 C09 C10 C11 C23 C21 C07',
    'qpoint_phonon_modes.py': 'C15 C26 C14 C10 C11 C09 C23 C24 C07',
    'sampling.py': 'C20', 'spectra.py': 'C13 C12 C17 C18 C19 C10 C09 C11 C07',
    'structure_factor.py': 'C16 C15 C10 C11 C09 C07',
    'util.py': 'C21 C22 C01 C19 C16 C18 C09 C11 C24 C20',
    'validate.py': 'C11 C09 C04', 'cli/brille_convergence.py': 'C30', 'cli/optimise_dipole_parameter.py': 'C30',
    'brille.py': 'C29 C30', 'cli/dispersion.py': 'C27', 'cli/dos.py': 'C27',
    'cli/intensity_map.py': 'C27', 'cli/powder_map.py': 'C27',
    'cli/utils.py': 'C27', 'readers/castep.py': 'C23 C25',
    'readers/phonopy.py': 'C24 C25'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult}


def mutants(src):
    """(start, end, replacement) for every edit, as character offsets"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln) + 1)

    def off(line, col):
        return starts[line - 1] + len(
            lines[line - 1].encode()[:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno,
                                                n.end_col_offset)
    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((a, b, new if isinstance(new, str) else ast.unparse(new),
                    what, n.lineno))

    def expr(n):
        for c in ast.walk(n):
            if isinstance(c, ast.Compare):
                m = copy.deepcopy(c)
                if type(m.ops[0]) in CMP:
                    m.ops[0] = CMP[type(m.ops[0])]()
                    put(c, m, 'cmp')
            elif isinstance(c, ast.BinOp) and type(c.op) in BIN:
                m = copy.deepcopy(c)
                m.op = BIN[type(c.op)]()
                put(c, m, 'bin')
            elif isinstance(c, ast.BoolOp):
                m = copy.deepcopy(c)
                m.op = ast.And() if isinstance(c.op, ast.Or) else ast.Or()
                put(c, m, 'bool')
                put(c, c.values[0], 'first')
            elif isinstance(c, ast.UnaryOp):
                put(c, c.operand, 'unary')
            elif isinstance(c, ast.Constant) and not isinstance(
                    c.value, str) and c.value is not None:
                v = c.value
                if isinstance(v, bool):
                    put(c, str(not v), 'flip')
                elif isinstance(v, int):
                    put(c, f'({v + 1})', 'int')
                    if v > 0:
                        put(c, f'({v - 1})', 'int')
                elif isinstance(v, float):
                    put(c, repr(v * 1.5 if v else 1e-3), 'float')
            elif isinstance(c, ast.Call):
                if c.keywords:
                    for i in range(len(c.keywords)):
                        m = copy.deepcopy(c)
                        del m.keywords[i]
                        put(c, m, 'keyword')
                if len(c.args) == 1 and isinstance(
                        c.func, ast.Attribute) and c.func.attr in (
                            'to', 'copy', 'astype'):
                    put(c, c.func.value, 'call')
                if isinstance(c.func, ast.Name) and c.func.id in (
                        'abs', 'sorted', 'list') and len(c.args) == 1:
                    put(c, c.args[0], 'call')
                if isinstance(c.func, ast.Attribute) and c.func.attr in (
                        'conj', 'deepcopy', 'copy', 'abs', 'absolute'):
                    if c.args:
                        put(c, c.args[0], 'call')
                    else:
                        put(c, c.func.value, 'call')

    def stmts(body):
        for s in body:
            if isinstance(s, (ast.Raise, ast.Import, ast.ImportFrom,
                              ast.Pass, ast.Assert)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and 'warn' in ast.unparse(s)[:20] or (
                    isinstance(s, ast.Expr)
                    and ast.unparse(s).startswith('print')):
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(s, ast.FunctionDef) and any(
                        'overload' in ast.unparse(d)
                        for d in s.decorator_list):
                    continue
                stmts(s.body)
                continue
            if isinstance(s, (ast.AugAssign, ast.Expr)):
                put(s, 'pass', 'drop')
            if isinstance(s, ast.If):
                put(s.test, 'True', 'if')
                put(s.test, 'False', 'if')
                expr(s.test)
                stmts(s.body)
                stmts(s.orelse)
            elif isinstance(s, (ast.For, ast.While)):
                expr(s.iter if isinstance(s, ast.For) else s.test)
                stmts(s.body)
                stmts(s.orelse)
            elif isinstance(s, ast.With):
                stmts(s.body)
            elif isinstance(s, ast.Try):
                stmts(s.body)
                for h in s.handlers:
                    stmts(h.body)
                stmts(s.orelse)
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.Return,
                                ast.Expr)):
                if s.value is not None:
                    expr(s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                expr(s.value)
    body = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            body.append(s)
        elif isinstance(s, ast.ClassDef):
            body += [x for x in s.body if isinstance(x, ast.FunctionDef)]
    stmts(body)
    return out


def main():
    outfile, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    mods = sys.argv[4:] or list(CHECKS)
    rng = random.Random(seed)
    work = f'/tmp/mutate_{os.getpid()}'
    shutil.copytree('/repo', work, symlinks=True)
    env = dict(os.environ, EUPHONIC_MC_REPO=work, MC_STOP='1', VERIF_SEED='1')
    pool = []
    for m in mods:
        src = open(f'{work}/euphonic/{m}', newline='').read()
        ms = [x for x in mutants(src.replace('\r\n', '\n'))]
        rng.shuffle(ms)
        pool.append([(m, x) for x in ms])
    # as many per module as its share of the square root of the edits
    k = [len(p) ** .5 for p in pool]
    todo = []
    for p, w in zip(pool, k):
        todo += p[:max(1, round(n * w / sum(k)))]
    rng.shuffle(todo)
    for m, (a, b, new, what, line) in todo:
        path = f'{work}/euphonic/{m}'
        orig = open(path, newline='').read()
        src = orig.replace('\r\n', '\n')
        mut = src[:a] + new + src[b:]
        try:
            compile(mut, path, 'exec')
        except SyntaxError:
            continue
        open(path, 'w').write(mut)
        caught = None
        t0 = time.time()
        for c in CHECKS[m].split():
            r = subprocess.run(['/verif/check', c], env=env,
                               capture_output=True, text=True)
            if r.returncode:
                caught = c
                break
        open(path, 'w', newline='').write(orig)
        with open(outfile, 'a') as f:
            f.write(json.dumps(dict(
                module=m, line=line, what=what, old=src[a:b][:160],
                new=new[:160], caught=caught, rc=r.returncode,
                wall=round(time.time() - t0))) + '\n')
    shutil.rmtree(work)


main()
