module diskcheck

go 1.23.0

require (
	simrt v0.0.0
	simstd v0.0.0
)

replace simrt => ../simrt

replace simstd => ../simstd
