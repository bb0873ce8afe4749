"""Writes /verif/seeded/<id> for the planted bugs of plants_*.py, diffs against /repo's HEAD"""
import json, os, shutil, subprocess, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
only = set(sys.argv[1:])
for module, files in (('plants_program', {'demo.sh': 'demo_program.sh', 'common.rs': 'common.rs'}),
                      ('plants_cli', {f: 'cli/' + f for f in ('demo.sh', 'mock.py', 'payer.json', 'ledgers.tgz')})):
    try:
        plants = importlib.import_module(module).PLANTS
    except ModuleNotFoundError:
        continue
    for id, prop, edits, needs, breaks, demo in plants:
        if only and id not in only: continue
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True).stdout
        try:
            for path, old, new in edits:
                full = '/repo/' + path
                text = open(full).read()
                head = text.split('#[cfg(test)]')[0]
                assert head.count(old) == 1, (id, path, old, head.count(old))
                open(full, 'w').write(text.replace(old, new, 1))
            diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        out = f'/verif/seeded/{id}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + ('/demo.rs' if module == 'plants_program' else '/demo.py'), 'w').write(demo)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        for name, source in files.items():
            shutil.copy(os.path.join(here, source), out + '/' + name)
            os.chmod(out + '/' + name, 0o755 if name.endswith('.sh') else 0o644)
