CONSTANTS
  MaxP = 90
  MaxN = 3
SPECIFICATION Spec
INVARIANTS LogOfProduct LogMonotone LogOfPowers ExpOfLog Halving OneTopic SameTopics AtMostOne OneWord Jensen MixtureSymmetric Adds
