module verif/mc

go 1.20

require github.com/forsyth/jsonpath v0.0.0

replace github.com/forsyth/jsonpath => /repo
