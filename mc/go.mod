module verif/mc

go 1.16

require github.com/ericlagergren/decimal v0.0.0

replace github.com/ericlagergren/decimal => /repo
