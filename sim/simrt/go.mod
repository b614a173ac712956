module simrt

go 1.23.0
