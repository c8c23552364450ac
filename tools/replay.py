import shutil, sys, tempfile
import check, props
pid, path, entry = sys.argv[1:4]
p = props.PROPS[pid]
work = tempfile.mkdtemp(prefix="zs-replay-")
try:
    exe = check.build_native(p, work)
    params = dict((a.split("=")[0], int(a.split("=")[1])) for a in sys.argv[4:])
    rc, out = check.replay_native(p, exe, {"entry": entry, "params": params}, path)
    print(out)
    print("exit", rc)
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
