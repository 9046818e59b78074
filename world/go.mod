module simworld

go 1.21
