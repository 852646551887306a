package lens_test

import (
	"flag"
	"go/build"
	"io"
	"os"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/lens/cmd"
)

func init() {
	lens.C19ParseFlags = func(args []string, gopath string, custom []lens.C19Custom) (*lens.Config, error) {
		oldArgs, oldSet, oldPath := os.Args, flag.CommandLine, build.Default.GOPATH
		defer func() { os.Args, flag.CommandLine, build.Default.GOPATH = oldArgs, oldSet, oldPath }()
		flag.CommandLine = flag.NewFlagSet("modlens", flag.PanicOnError)
		flag.CommandLine.SetOutput(io.Discard)
		os.Args = append([]string{"modlens"}, args...)
		build.Default.GOPATH = gopath
		var cf []cmd.CustomFlag
		for _, c := range custom {
			cf = append(cf, cmd.CustomFlag{Name: c.Name, DefaultValue: c.Default, Usage: "custom", Type: c.Type})
		}
		return cmd.ParseFlags(cf)
	}
}
