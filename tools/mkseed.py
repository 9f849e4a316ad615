"""mkseed.py SPEC.py … : SPEC defines SEEDS = [dict(id, property, needs, breaks, demo, subs=[(file, old, new), …])];
writes /verif/seeded/ID/{patch.diff,demo.sh,meta.json} against /repo's working tree (which is not touched)."""
import difflib, json, pathlib, sys
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        files = {}
        for f, old, new in s['subs']:
            a = files.setdefault(f, [open(f'/repo/{f}', newline='').read()] * 2)
            if '\r\n' in a[0]:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            assert a[1].count(old) == 1, (s['id'], f, a[1].count(old), old)
            files[f] = [a[0], a[1].replace(old, new)]
        patch = ''
        for f, (a, b) in files.items():
            patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), f'a/{f}', f'b/{f}'))
        d = pathlib.Path('/verif/seeded') / s['id']
        d.mkdir(parents=True, exist_ok=True)
        (d / 'patch.diff').write_bytes(patch.encode())
        (d / 'demo.sh').write_text("cd /repo && /opt/venv/bin/python - <<'P'\n" + s['demo'].strip('\n') + "\nP\n")
        (d / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}) + '\n')
        print(s['id'])
