ML = 'segeval/ml/__init__.py'
DA = 'segeval/data/__init__.py'
CO = 'segeval/compute.py'

plant('properties-one-level', 'C21',
      [(DA, "dataset.properties = copy.deepcopy(self.properties)", "dataset.properties = copy.copy(self.properties)")],
      '''from segeval.data import Dataset
d = Dataset({'i': {'c': (1, 2)}}, properties={'authors': ['x']})
e = d + Dataset()
e.properties['authors'].append('y')
assert d.properties['authors'] == ['x'], d.properties
''', 'a property that is itself a list or dictionary, changed in a copy', 'A copied dataset shares its properties with the original.')

plant('beta-binary', 'C18',
      [(ML, "beta = Decimal(str(beta))", "beta = Decimal(beta)")],
      '''from decimal import Decimal
from segeval.ml import ConfusionMatrix, fmeasure
m = ConfusionMatrix()
m['a']['a'] = 3
m['b']['a'] = 1
m['a']['b'] = 4
assert fmeasure(m, 'a', beta=0.1) == fmeasure(m, 'a', beta=Decimal('0.1'))
''', 'a fractional beta that has no exact binary representation', 'F-measure is computed for a slightly different beta than the one asked for.')

plant('format-of-source', 'C21',
      [(DA, "        self.boundary_format = boundary_format\n        # Masses", "        self.boundary_format = getattr(item_coder_data, 'boundary_format', boundary_format)\n        # Masses")],
      '''from segeval.data import Dataset
from segeval.format import BoundaryFormat
a = Dataset({'i': {'c': (1, 1, 2)}})
b = Dataset(a, boundary_format=BoundaryFormat.position)
assert b.boundary_format == BoundaryFormat.position
''', 'a dataset constructed from another dataset with a format given', 'The given boundary format is ignored.')
