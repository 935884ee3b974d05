"""Scenario interface shared by the symbolic run (python3-vt) and the concrete run on the real runtime."""
import os
import shutil
import tempfile


class PylatexRecorder(object):
    """stand-in for pylatex: records what a document is given instead of running a LaTeX compiler"""

    @staticmethod
    def make():
        class Node(object):
            def __init__(self, *a, **k):
                self.args, self.kw, self.items = a, k, []

            def append(self, x):
                self.items.append(x)

            def extend(self, xs):
                for x in xs:
                    self.items.append(x)

            def create(self, child):
                return Ctx(self, child)

        class Ctx(object):
            def __init__(self, doc, child):
                self.doc, self.child = doc, child

            def __enter__(self):
                return self.child

            def __exit__(self, et, ev, tb):
                self.doc.items.append(self.child)
                return False

        class Section(Node):
            pass

        class Alignat(Node):
            pass

        class Document(Node):
            docs = []

            def __init__(self, *a, **k):
                Node.__init__(self, *a, **k)
                Document.docs.append(self)
                self.filename = a[0] if a else k.get('default_filepath')

            def generate_pdf(self, filepath=None, **k):
                self.filename = filepath

            def generate_tex(self, filepath=None):
                self.filename = filepath
        return {'Document': Document, 'Section': Section, 'Alignat': Alignat, 'Math': Node, 'NoEscape': str}


class EnvBase(object):
    symbolic = False

    def __init__(self):
        self._scratch = None
        self._cwd = None
        self._clock = None
        self.system_calls = []

    # ---- files
    def scratch(self):
        """a private directory which is also the working directory until the end of the run"""
        if self._scratch is None:
            self._cwd = os.getcwd()
            self._scratch = tempfile.mkdtemp(prefix='vtscratch')
            os.chdir(self._scratch)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            os.chdir(self._cwd)
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # ---- control
    def flag(self, name):
        return bool(self.conc(self.int(name, 0, 1)))

    def choice(self, name, opts):
        opts = list(opts)
        return opts[self.conc(self.int(name, 0, len(opts) - 1))]

    def check_same(self, a, b, label):
        self.check(self.same(a, b), label)

    def set_clock(self, fn):
        self._clock = fn

    def system(self, cmd):
        self.system_calls.append(cmd)
        return 0
