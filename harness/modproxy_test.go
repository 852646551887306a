package lens

// A module proxy on the local file system, for generated module versions.

import (
	"archive/zip"
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// mpPublish adds a version of a module to the proxy directory.
func mpPublish(proxy, mod, version string, files map[string]string) {
	dir := filepath.Join(proxy, mod, "@v")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		vfHarnessErr("%v", err)
	}
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	for _, name := range vfKeys(files) {
		w, err := z.Create(mod + "@" + version + "/" + name)
		if err != nil {
			vfHarnessErr("%v", err)
		}
		_, _ = w.Write([]byte(files[name]))
	}
	_ = z.Close()
	vfWrite(filepath.Join(dir, version+".zip"), buf.String())
	vfWrite(filepath.Join(dir, version+".mod"), files["go.mod"])
	vfWrite(filepath.Join(dir, version+".info"), `{"Version":"`+version+`","Time":"2024-01-01T00:00:00Z"}`)
	list := filepath.Join(dir, "list")
	old, _ := os.ReadFile(list)
	lines := append(strings.Fields(string(old)), version)
	sort.Strings(lines)
	vfWrite(list, strings.Join(lines, "\n")+"\n")
}

// mpEnv points the go commands of this process at the proxy and at scratch
// caches.
func mpEnv(dir string) (proxy, gopath, modcache string) {
	proxy, gopath, modcache = filepath.Join(dir, "proxy"), filepath.Join(dir, "gopath"), filepath.Join(dir, "gopath/pkg/mod")
	for k, v := range map[string]string{
		"GOPROXY": "file://" + proxy, "GOSUMDB": "off", "GOFLAGS": "-modcacherw", "GOTOOLCHAIN": "local", "GOWORK": "",
		"GONOSUMDB": "", "GOPRIVATE": "", "GONOPROXY": "", "GOENV": "off",
	} {
		if err := os.Setenv(k, v); err != nil {
			vfHarnessErr("%v", err)
		}
	}
	return
}

// mpGo runs a go command; it must succeed.
func mpGo(dir string, env []string, args ...string) string {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		vfHarnessErr("go %v in %s: %v\n%s", args, dir, err, out)
	}
	return string(out)
}
