CONSTANTS
  MaxP = 2000
  MaxN = 8
SPECIFICATION Spec
INVARIANTS LogOfProduct LogMonotone LogOfPowers ExpOfLog Halving OneTopic SameTopics AtMostOne OneWord Jensen MixtureSymmetric Adds
