PROPERTY = "C27"
FILE = "bindings/python/vara-feature/pybind_FeatureModel.cpp"
OLD = """            vf::addFeature(FM,
                           std::make_unique<vf::NumericFeature>(
                               std::move(Name), std::move(Values), Opt,
                               std::move(Locations)),
                           &Parent);
"""
NEW = """            vf::addFeature(FM,
                           std::make_unique<vf::NumericFeature>(
                               std::move(Name), std::move(Values),
                               Opt && Locations.empty(), std::move(Locations)),
                           &Parent);
"""
NEEDS = "an optional numeric feature with locations added from Python"
BREAKS = "The feature is mandatory."
PY = r"""
import vara_feature.feature_model_builder as B
import vara_feature.feature as F
b = B.FeatureModelBuilder()
m = b.make_root('root').build_feature_model()
m.add_numeric_feature(m.get_root(), 'n', (1, 3), True, [F.Location('p')])
assert m.get_feature('n').is_optional()
"""
