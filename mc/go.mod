module verif/mc

go 1.22

require (
	github.com/arl/go-detour v0.0.0
	github.com/arl/gogeo v0.0.0-20200405111831-9d419f5f7a90
)

require (
	github.com/arl/assertgo v0.0.0-20180702120748-a1be5afdc871 // indirect
	github.com/arl/gobj v0.0.0-20180702120947-e436584cd5ac // indirect
	github.com/arl/math32 v0.2.0 // indirect
)

replace github.com/arl/go-detour => /repo
