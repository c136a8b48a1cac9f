"""Recorder: drives the real converter through its public interface and logs
one event per call.  Runs as a child process with the repository first on
sys.path and a scratch directory as cwd.   rec.py REPO SCENARIOS OUT"""
import json, os, resource, shutil, signal, sys, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = 60      # seconds per scenario


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def main():
    repo, src, dst = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, HERE)
    import drivers
    sys.path.remove(HERE)
    sys.path.insert(0, repo)
    os.makedirs("run", exist_ok=True)
    os.chdir("run")
    home = os.getcwd()
    shutil.copy(os.path.join(repo, "defaults.ini"), "defaults.ini")
    signal.signal(signal.SIGALRM, _alarm)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            sc = json.loads(line)
            try:
                signal.alarm(LIMIT)
                rec = drivers.KINDS[sc["kind"]](sc)
                signal.alarm(0)
            except Hang:
                rec = {"id": sc["id"], "crash": "no progress for %d s" % LIMIT}
            except BaseException:
                signal.alarm(0)
                rec = {"id": sc["id"], "crash": traceback.format_exc()[-1500:]}
            os.chdir(home)
            out.write(json.dumps(rec, separators=(",", ":")) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
