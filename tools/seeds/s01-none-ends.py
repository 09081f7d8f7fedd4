PROPERTY = 'C01'
NEEDS = 'a part in the middle of a pipeline whose result is None (a part that only has side effects)'
BREAKS = 'the parts behind it are silently skipped instead of being run on that result'
EDITS = [('legacy/pipelines/pipelines.py', """        for part in self.parts:
            current_input = part.execute(current_input)

""", """        for part in self.parts:
            current_input = part.execute(current_input)
            if current_input is None:
                break

""")]
DEMO = r'''
from python.ficus.legacy.pipelines.pipelines import *
ran = []

class A(InternalPipelinePart):
    def execute(self, c): ran.append('A')

class B(InternalPipelinePart):
    def execute(self, c): ran.append(('B', c)); return 'b'

r = Pipeline(A(), B())(1)
sys.exit(0 if ran == ['A', ('B', None)] and r == 'b' else 1)
'''
