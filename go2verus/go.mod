module go2verus

go 1.23
