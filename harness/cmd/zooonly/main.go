// zooonly contains the generated functions and nothing of the library.
package main

import (
	"fmt"

	_ "github.com/bytedance/mockey/verifh/zoo"
	"github.com/bytedance/mockey/verifh/zrt"
)

func main() { fmt.Println(len(zrt.Targets)) }
