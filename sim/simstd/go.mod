module simstd

go 1.23.0

require simrt v0.0.0

replace simrt => ../simrt
