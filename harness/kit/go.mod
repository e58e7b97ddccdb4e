module vkit

go 1.22

require pgregory.net/rapid v1.3.0
