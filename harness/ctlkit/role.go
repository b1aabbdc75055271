// Package ctlkit runs the command line tools as processes against servers on
// the loopback network, with faults where one tool calls another.
package ctlkit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/log"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/protoengine"
)

// roleConfig is what the tools have to know about the servers and the faults.
type roleConfig struct {
	MixRPC    string // host:port of the mix's key server
	SmartHost string
	SMTPPort  int
	Calls     string              // directory of call counters
	Plan      map[string][]string // faults by tool and command
}

// keep holds files whose descriptors are used by number.
var keep []*os.File

const roleEnv = "VERIF_CTL_ROLE"

// Role runs the process as a tool if it was started under a tool's name. It
// has to be called first.
func Role() {
	name := filepath.Base(os.Args[0])
	if name != "mutectrl" && name != "mutecrypt" && name != "muteproto" {
		return
	}
	var rc roleConfig
	b, err := os.ReadFile(os.Getenv(roleEnv))
	if err == nil {
		err = json.Unmarshal(b, &rc)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
		os.Exit(3)
	}
	mixclient.GetMixAddress = func(string) (string, error) { return rc.MixRPC, nil }
	switch name {
	case "mutectrl":
		ce := ctrlengine.New()
		err := ce.Start(os.Args)
		ce.Close()
		exit(err)
	case "mutecrypt":
		ce := cryptengine.New()
		rc.faulty(name, func(args []string) error {
			err := ce.Start(args)
			ce.Close()
			return err
		})
	case "muteproto":
		rc.faulty(name, func(args []string) error { return protoengine.New().Run(args) })
	}
}

func exit(err error) {
	log.Flush()
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: error: %s\n", os.Args[0], err)
		os.Exit(1)
	}
	os.Exit(0)
}

// command finds the command in the arguments of a tool.
func command(args []string) string {
	for i := 1; i < len(args); i++ {
		if strings.HasPrefix(args[i], "--") {
			i++ // all global options used have a value
			continue
		}
		return args[i]
	}
	return "loop"
}

// next returns the fault planned for this call.
func (rc *roleConfig) next(key string) string {
	for n := 0; ; n++ {
		f, err := os.OpenFile(filepath.Join(rc.Calls, fmt.Sprintf("%s.%d", key, n)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
		if err != nil {
			if os.IsExist(err) {
				continue
			}
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
			os.Exit(3)
		}
		f.Close()
		if p := rc.Plan[key]; n < len(p) {
			return p[n]
		}
		return "ok"
	}
}

func killSelf() {
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

func killParent() {
	syscall.Kill(syscall.Getppid(), syscall.SIGKILL)
	time.Sleep(10 * time.Millisecond)
	os.Exit(9)
}

// faulty runs a tool with the fault planned for the call:
//
//	ok        no fault
//	before    fails without reading anything
//	after     fails after the work is done, without output
//	partial   as after, with half of the output
//	partials  as partial, with all of the status
//	late      fails after the work is done, with all output and status
//	garbage   ends well, with another text as status
//	junk      ends well without doing anything, with another text as status
//	selfb     is killed before anything is done
//	selfa     is killed when the work is done
//	killb     the caller is killed before anything is done
//	killa     the caller is killed when the work is done
//	cmd:N     (loop) stops instead of reading command N
//	killcmd:N (loop) kills the caller instead of reading command N
//	die:N     (fetch) stops after N bytes of output and status
//	kill:N    (fetch) kills the caller after N bytes of output and status
func (rc *roleConfig) faulty(name string, run func(args []string) error) {
	cmd := command(os.Args)
	mode := rc.next(name + "-" + cmd)
	switch mode {
	case "before":
		exit(fmt.Errorf("planned failure"))
	case "killb":
		killParent()
	case "selfb":
		killSelf()
	case "junk":
		io.Copy(io.Discard, os.Stdin)
		fmt.Fprintln(os.Stderr, "planned status")
		exit(nil)
	}
	args := append([]string(nil), os.Args...)
	insert := func(flags ...string) { args = append(append(args[:1:1], flags...), args[1:]...) }
	if cmd == "deliver" {
		insert("--input-fd", rc.redirect())
	}
	if n := 0; strings.HasPrefix(mode, "die:") || strings.HasPrefix(mode, "kill:") {
		kill := mode[0] == 'k'
		fmt.Sscanf(mode[strings.Index(mode, ":")+1:], "%d", &n)
		left := make(chan int, 1)
		left <- n
		pump := func(dst *os.File) (string, *os.File) {
			r, w, err := os.Pipe()
			if err != nil {
				os.Exit(3)
			}
			go func() {
				buf := make([]byte, 512)
				for {
					k, err := r.Read(buf)
					if k > 0 {
						l := <-left
						out := buf[:k]
						if k > l {
							out = buf[:l]
						}
						dst.Write(out)
						if l-len(out) <= 0 && len(out) < k {
							if kill {
								killParent()
							}
							os.Exit(1)
						}
						left <- l - len(out)
					}
					if err != nil {
						return
					}
				}
			}()
			keep = append(keep, w)
			return fmt.Sprint(w.Fd()), w
		}
		of, ow := pump(os.Stdout)
		sf, sw := pump(os.Stderr)
		insert("--output-fd", of, "--status-fd", sf)
		err := run(args)
		ow.Close()
		sw.Close()
		time.Sleep(5 * time.Millisecond)
		exit(err)
	}
	if mode == "ok" {
		exit(run(args))
	}
	var n int
	if kill := strings.HasPrefix(mode, "killcmd:"); kill || strings.HasPrefix(mode, "cmd:") {
		fmt.Sscan(mode[strings.Index(mode, ":")+1:], &n)
		insert("--command-fd", commands(n, kill))
		exit(run(args))
	}
	tmp := func() (*os.File, string) {
		f, err := os.CreateTemp(rc.Calls, "x")
		if err != nil {
			os.Exit(3)
		}
		os.Remove(f.Name())
		keep = append(keep, f)
		return f, fmt.Sprint(f.Fd())
	}
	of, on := tmp()
	sf, sn := tmp()
	insert("--output-fd", on, "--status-fd", sn)
	if err := run(args); err != nil {
		exit(err)
	}
	read := func(f *os.File) []byte {
		f.Seek(0, 0)
		b, _ := io.ReadAll(f)
		return b
	}
	out, status := read(of), read(sf)
	switch mode {
	case "killa":
		os.Stdout.Write(out)
		os.Stderr.Write(status)
		killParent()
	case "selfa":
		killSelf()
	case "partials":
		os.Stdout.Write(out[:len(out)/2])
		os.Stderr.Write(status)
		os.Exit(1)
	case "late":
		os.Stdout.Write(out)
		os.Stderr.Write(status)
		os.Exit(1)
	case "after":
		exit(fmt.Errorf("planned failure"))
	case "partial":
		os.Stdout.Write(out[:len(out)/2])
		exit(fmt.Errorf("planned failure"))
	case "garbage":
		os.Stdout.Write(out)
		fmt.Fprintln(os.Stderr, "planned status")
		exit(nil)
	}
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: unknown fault %q\n", mode)
	os.Exit(3)
}

// redirect makes the message read from standard input go to the test's mail
// server and returns the descriptor of the changed message.
func (rc *roleConfig) redirect() string {
	in, err := io.ReadAll(bufio.NewReader(os.Stdin))
	if err != nil {
		exit(err)
	}
	f, err := os.CreateTemp(rc.Calls, "d")
	if err != nil {
		exit(err)
	}
	os.Remove(f.Name())
	keep = append(keep, f)
	if mm, err := base64.Decode(string(in)); err == nil {
		mo := mixclient.MessageMarshalled(mm).Unmarshal()
		mo.SmartHost, mo.SMTPPort = rc.SmartHost, rc.SMTPPort
		in = []byte(base64.Encode(mo.Marshal()))
	}
	f.Write(in)
	f.Seek(0, 0)
	return fmt.Sprint(f.Fd())
}

// commands returns a descriptor that delivers the first n commands only.
func commands(n int, kill bool) string {
	r, w, err := os.Pipe()
	if err != nil {
		os.Exit(3)
	}
	in := os.NewFile(4, "commands")
	keep = append(keep, r, w, in)
	go func() {
		rd := bufio.NewReader(in)
		for i := 0; ; i++ {
			l, err := rd.ReadString('\n')
			if i == n && l != "" {
				if kill {
					killParent()
				}
				os.Exit(1)
			}
			w.WriteString(l)
			if err != nil {
				w.Close()
				return
			}
		}
	}()
	return fmt.Sprint(r.Fd())
}
