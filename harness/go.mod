module vimagination.zapto.org/limage/zverif

go 1.22

require (
	vimagination.zapto.org/byteio v1.0.0
	vimagination.zapto.org/limage v0.0.0
	vimagination.zapto.org/memio v1.0.0
	vimagination.zapto.org/parser v1.0.0
)

replace vimagination.zapto.org/limage => /repo

replace vimagination.zapto.org/byteio => ../stubs/byteio

replace vimagination.zapto.org/memio => ../stubs/memio

replace vimagination.zapto.org/parser => ../stubs/parser
