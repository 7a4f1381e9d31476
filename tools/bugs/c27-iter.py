PROPERTY = "C27"
FILE = "bindings/python/vara-feature/pybind_FeatureModel.cpp"
OLD = """            return py::make_iterator(FM.begin(), FM.end());
          },
          py::keep_alive<0, 1>())
"""
NEW = """            return py::make_iterator(FM.begin(), FM.end());
          })
"""
NEEDS = "a Python program that iterates over a model nobody else refers to"
BREAKS = "Iterating reads features of a model that was destroyed."
PY = r"""
import vara_feature.feature_model_builder as B
def build():
    b = B.FeatureModelBuilder()
    b.make_root('root')
    for n in 'abc':
        b.make_binary_feature(n * 30, False)
    return b.build_feature_model()
it = iter(build())
names = [f.name.str() for f in it]
assert names == ['root', 'a' * 30, 'b' * 30, 'c' * 30], names
"""
