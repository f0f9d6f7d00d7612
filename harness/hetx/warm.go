package hetx

import "github.com/hexbee-net/etxe/pkg/etx"

func Warmup() {
	_, err := etx.ParseString("val a = 1\n")
	if err != nil {
		panic(err)
	}
}
