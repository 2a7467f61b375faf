package harness

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
)

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) bool {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg))
	return e == 0
}

// onTerminal runs f with the standard output a terminal of the given width, and
// returns what was written to it (false: no terminal can be had).
func onTerminal(width int, f func()) (string, bool) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		return "", false
	}
	defer master.Close()
	var n, lock int32
	if !ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)) || !ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n)) {
		return "", false
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return "", false
	}
	size := [4]uint16{24, uint16(width)}
	ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	var sb strings.Builder
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		buf := make([]byte, 4096)
		for {
			k, err := master.Read(buf)
			sb.Write(buf[:k])
			if err != nil {
				return
			}
		}
	}()
	old := os.Stdout
	os.Stdout = slave
	defer func() { os.Stdout = old }()
	func() {
		defer func() {
			slave.Close()
			wg.Wait()
		}()
		f()
	}()
	return sb.String(), true
}

// c13Terminal: Train showing its progress on a terminal performs the same
// steps, whatever the width, the number of epochs and batches and the loss.
func c13Terminal(shard, shards int, st *subStats) string {
	type F = float64
	cases := []struct {
		width  int
		epochs uint // 0: one step each
		target F
		alpha  F
	}{
		{80, 3, 1, 0.01}, {200, 0, 1, 0.01}, {10, 10, -1e12, 1e-9}, {1, 1, 0.5, 0.01},
		{0, 7, 1, 0}, {40, 100, 1, -0.01}, {33, 12, 0, 0.1}, {500, 2, 1e300, 1e-3},
	}
	for i, cs := range cases {
		if i%shards != shard {
			continue
		}
		mkm := func() (*model.Model[F], *layer.Dense[F]) {
			l := layer.NewInDense[F](1, 1, activation.Linear[F]{})
			m := model.NewModel[F]().Push(l)
			m.Compile()
			d := l.(*layer.Dense[F])
			d.Weights.LoadData([]F{0.5})
			d.Bias.LoadData([]F{0.25})
			return m, d
		}
		x, y := mk([]F{1}, []uint{1}), mk([]F{cs.target}, []uint{1})
		// as many steps as take about a second, the progress being shown three times
		m, _ := mkm()
		start, n := time.Now(), 0
		for ; n < 1000 || time.Since(start) < 100*time.Millisecond; n++ {
			m.TrainOne(x, y, 0, 0)
		}
		steps := uint(n * 10)
		epochs, batch := cs.epochs, uint(1)
		if epochs == 0 {
			epochs = steps
		} else {
			batch = steps/epochs + 1
		}
		m, d := mkm()
		var err error
		text, ok := onTerminal(cs.width, func() {
			err = m.Train([]tensor.Tensor[F]{x}, []tensor.Tensor[F]{y}, epochs, batch, cs.alpha, 0.5)
		})
		if !ok {
			st.Labels["no terminal"]++
			continue
		}
		if err != nil {
			return fmt.Sprintf("Train on a terminal of width %d: %v", cs.width, err)
		}
		m, twin := mkm()
		for k := epochs * batch; k > 0; k-- {
			if _, err := m.TrainOne(x, y, cs.alpha, 0.5); err != nil {
				return "TrainOne: " + err.Error()
			}
		}
		if s := sameAll(d.Weights.GetData(), twin.Weights.GetData()) + sameAll(d.Bias.GetData(), twin.Bias.GetData()); s != "" {
			return fmt.Sprintf("Train of %d epochs of %d batches on a terminal of width %d differs from single steps: %s", epochs, batch, cs.width, s)
		}
		st.Evaluations++
		if strings.Count(text, "\r[") > 1 {
			st.Nontrivial++
			out.Extra["enumerated_nontrivial"]++
			st.Labels["progress shown"]++
		}
	}
	return ""
}
