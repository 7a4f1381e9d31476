#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/StepFunctionParser.h"

#include <iostream>
#include <memory>
#include <string>
#include <vector>

using namespace vara::feature;

#define REQUIRE(C)                                                             \
  if (!(C)) {                                                                  \
    std::cout << "line " << __LINE__ << ": " << #C << " does not hold\n";      \
    return 1;                                                                  \
  }

