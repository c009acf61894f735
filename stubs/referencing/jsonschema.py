DRAFT202012 = "draft2020-12"
DRAFT7 = "draft-07"
DRAFT201909 = "draft2019-09"
