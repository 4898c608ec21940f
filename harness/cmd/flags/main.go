// flags tells whether a mock takes effect in this build.
package main

import (
	"fmt"
	"os"

	"github.com/bytedance/mockey"
)

func small(a int) int { return a + 1 }

func main() {
	effective := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println("panic:", r)
			}
		}()
		m := mockey.Mock(small, mockey.OptUnsafe).Return(100).Build()
		effective = small(1) == 100
		m.UnPatch()
	}()
	fmt.Println("effective:", effective)
	fmt.Println("after:", small(1))
	os.Exit(7)
}
