module h5

go 1.23

require (
	github.com/yaacov/tree-search-language/v4 v4.0.0
	pgregory.net/rapid v1.3.0
	vkit v0.0.0
)

replace vkit => ../kit

replace github.com/yaacov/tree-search-language/v4 => /repo/v4
