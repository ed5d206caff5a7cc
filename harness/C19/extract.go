// dir: internal/archive
package archive

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

type exEntry struct {
	name string
	kind byte // tar type
	link string
	body string
	mode int64
}

// exSnap: what is under a folder: path -> kind and content (links are not followed).
func exSnap(dir, except string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if p == except {
			if d.IsDir() {
				return fs.SkipDir
			}
			return nil
		}
		switch {
		case d.IsDir():
			m[p] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "link " + l
		case d.Type().IsRegular():
			b, _ := os.ReadFile(p)
			m[p] = "file " + string(b)
		default:
			m[p] = "other " + d.Type().String()
		}
		return nil
	})
	return m
}

func exDiff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if w != v {
			out = append(out, fmt.Sprintf("changed %s from %q to %q", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "made "+k+" ("+b[k]+")")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func exTar(es []exEntry, zipped bool) []byte {
	var b bytes.Buffer
	var tw *tar.Writer
	var gz *gzip.Writer
	if zipped {
		gz = gzip.NewWriter(&b)
		tw = tar.NewWriter(gz)
	} else {
		tw = tar.NewWriter(&b)
	}
	for _, e := range es {
		h := &tar.Header{Name: e.name, Typeflag: e.kind, Linkname: e.link, Mode: e.mode, Format: tar.FormatPAX}
		if e.kind == tar.TypeReg {
			h.Size = int64(len(e.body))
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if e.kind == tar.TypeReg {
			tw.Write([]byte(e.body))
		}
	}
	tw.Close()
	if gz != nil {
		gz.Close()
	}
	return b.Bytes()
}

func exZip(es []exEntry) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, e := range es {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		body := e.body
		switch e.kind {
		case tar.TypeReg:
			h.SetMode(0o644)
		case tar.TypeDir:
			h.SetMode(0o755 | fs.ModeDir)
			h.Name = strings.TrimSuffix(e.name, "/") + "/"
			body = ""
		case tar.TypeSymlink:
			h.SetMode(0o777 | fs.ModeSymlink)
			body = e.link
		case tar.TypeFifo:
			h.SetMode(0o644 | fs.ModeNamedPipe)
			body = ""
		}
		w, err := zw.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		w.Write([]byte(body))
	}
	zw.Close()
	return b.Bytes()
}

// Whatever is in the archive, nothing outside the target changes, only regular files and folders are made, each entry
// that can be placed is placed with its content, and one that cannot be is reported.
// Every name used here, however it is understood, leads to a place inside the scratch folder.
func TestVerifC19Extract(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	n := v.N(400)
	for i := 0; i < n && v.More(); i++ {
		scratch := v.Scratch()
		deep := filepath.Join(scratch, "w", "x", "y", "z")
		target := filepath.Join(deep, "target")
		outside := filepath.Join(scratch, "outside")
		os.MkdirAll(filepath.Join(outside, "sub"), 0o755)
		os.MkdirAll(filepath.Join(deep, "cwd"), 0o755)
		os.WriteFile(filepath.Join(outside, "keep"), []byte("keep me"), 0o644)
		os.WriteFile(filepath.Join(deep, "near"), []byte("near"), 0o644)
		os.Chdir(filepath.Join(deep, "cwd"))
		prior := v.Pick("absent", "absent", "folder", "folder with a link out", "link to a folder outside")
		switch prior {
		case "folder":
			os.MkdirAll(filepath.Join(target, "pkg"), 0o755)
			os.WriteFile(filepath.Join(target, "pkg", "stale"), []byte("stale"), 0o644)
		case "folder with a link out":
			os.MkdirAll(target, 0o755)
			os.Symlink(outside, filepath.Join(target, "pkg"))
		case "link to a folder outside":
			os.Symlink(outside, target)
		}
		// the entries
		var es []exEntry
		good := func() string {
			return v.Pick("pkg/DESCRIPTION", "pkg/R/a.R", "pkg/R/b.R", "pkg/src/deep/er/f.c", "pkg", "pkg/R", "top", "pkg/l/x", "pkg/l", "pkg/..data", "pkg/x..y", "pkg/l/keep", "pkg/.. /x")
		}
		bad := func() string {
			return v.Pick("../up", "../../up/x", "../near", "pkg/../../up", "..", "", outside+"/abs", outside+"/keep", "../target/../near2", "../targetx", "pkg/../../../out2")
		}
		k := 1 + v.R.Intn(6)
		for j := 0; j < k; j++ {
			e := exEntry{name: good(), kind: tar.TypeReg, body: fmt.Sprint("body ", i, " ", j), mode: []int64{0o644, 0o755, 0o600}[v.R.Intn(3)]}
			switch v.R.Intn(12) {
			case 0, 1:
				e.kind = tar.TypeDir
			case 2:
				e.kind, e.link = tar.TypeSymlink, v.Pick(outside, outside+"/keep", "../../../../../outside", "DESCRIPTION", "..")
			case 3:
				e.kind, e.link = tar.TypeLink, v.Pick(outside+"/keep", "pkg/DESCRIPTION", "../../near")
			case 4:
				e.kind = []byte{tar.TypeFifo, tar.TypeChar, tar.TypeBlock}[v.R.Intn(3)]
			case 5, 6:
				e.name = bad()
			case 7:
				e.kind, e.name = tar.TypeDir, bad()
			case 8:
				e.name = v.Pick("./pkg/a", "pkg//b", "pkg/R/../c", "pkg/./d")
			}
			es = append(es, e)
		}
		form := v.Pick("tar", "tar.gz", "zip")
		var data []byte
		// what should come out
		want := map[string]string{}
		refused, unsure := "", ""
		if form == "zip" {
			var kept []exEntry
			for _, e := range es {
				if e.kind == tar.TypeLink || e.kind == tar.TypeChar || e.kind == tar.TypeBlock {
					continue
				}
				if e.kind == tar.TypeReg && strings.HasSuffix(e.name, "/") || e.name == "" {
					continue
				}
				kept = append(kept, e)
			}
			es = kept
			if len(es) == 0 {
				v.Drop(scratch)
				continue
			}
			data = exZip(es)
		} else {
			data = exTar(es, form == "tar.gz")
		}
		for _, e := range es {
			p := path.Clean(e.name)
			if !filepath.IsLocal(e.name) || e.kind != tar.TypeReg && e.kind != tar.TypeDir {
				refused = fmt.Sprintf("%q of type %c", e.name, e.kind)
				break
			}
			if p != e.name {
				unsure = e.name
			}
			// every folder above must be a folder
			clash := false
			for q := path.Dir(p); q != "."; q = path.Dir(q) {
				if w, ok := want[q]; ok && w != "dir" {
					clash = true
				}
			}
			w, there := want[p]
			if e.kind == tar.TypeReg && (there || p == ".") || e.kind == tar.TypeDir && there && w != "dir" {
				clash = true
			}
			if clash {
				refused = fmt.Sprintf("%q, which is already there or beneath a file", e.name)
				break
			}
			for q := path.Dir(p); q != "."; q = path.Dir(q) {
				want[q] = "dir"
			}
			if e.kind == tar.TypeDir {
				want[p] = "dir"
			} else {
				want[p] = "file " + e.body
			}
		}
		file := filepath.Join(scratch, "in."+form)
		os.WriteFile(file, data, 0o644)
		before := exSnap(scratch, target)
		var desc []string
		for _, e := range es {
			desc = append(desc, fmt.Sprintf("{%q type %c link %q}", e.name, e.kind, e.link))
		}
		input := fmt.Sprintf("%s with entries %s, target before: %s", form, strings.Join(desc, ", "), prior)
		v.Case(input, func() {
			err := Extract(file, target)
			if d := exDiff(before, exSnap(scratch, target)); d != "" {
				v.Fail(input, "outside the target: %s", d)
				return
			}
			got := exSnap(target, "")
			if st, lerr := os.Lstat(target); lerr == nil && !st.IsDir() {
				v.Fail(input, "the target is not a folder but %s", st.Mode())
				return
			}
			for p, k := range got {
				if k != "dir" && !strings.HasPrefix(k, "file ") {
					v.Fail(input, "%s is neither a regular file nor a folder: %s", p, k)
					return
				}
				if rel, _ := filepath.Rel(target, p); rel != "." && want[rel] == "" && unsure == "" && err == nil {
					v.Fail(input, "%s (%s) was made although no entry says so (error: %v)", rel, k, err)
					return
				}
			}
			if refused != "" && err == nil {
				v.Fail(input, "no error although the archive has the entry %s", refused)
				return
			}
			if refused == "" && unsure == "" && err != nil {
				v.Fail(input, "error %v although every entry can be placed", err)
				return
			}
			if refused == "" && err == nil && unsure == "" {
				for p, k := range want {
					if g := got[filepath.Join(target, p)]; g != k {
						v.Fail(input, "%s should be %q, is %q", p, k, g)
						return
					}
				}
			}
		})
		os.Chdir(filepath.Join(deep, "cwd"))
		v.Drop(scratch)
	}
	os.Chdir(cwd)
}
