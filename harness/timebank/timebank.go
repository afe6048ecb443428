package timebank

// Stand-in used by the contract harness: tasks are recorded and run only when the harness says so.

import (
	"errors"
	"time"
)

var (
	ErrInvalidParameters = errors.New("timebank: invalid parameters")
	ErrInvalidDeadline   = errors.New("timebank: invalid deadline")
)

const DefaultTimeout time.Duration = 15 * time.Second

// Hook receives every task.
var Hook func(deadline time.Time, fn func(bool), err error)

type TimeBank struct{}

func NewTimeBank() *TimeBank { return &TimeBank{} }

func (tb *TimeBank) Cancel() {}

func (tb *TimeBank) NewTask(duration time.Duration, fn func(isCancelled bool)) error {
	if fn == nil {
		return ErrInvalidParameters
	}
	if duration == 0 {
		fn(false)
		return nil
	}
	Hook(time.Now().Add(duration), fn, nil)
	return nil
}

func (tb *TimeBank) Extend(duration time.Duration) bool { return false }

func (tb *TimeBank) NewTaskWithDeadline(deadline time.Time, fn func(isCancelled bool)) error {
	if deadline.Before(time.Now()) {
		Hook(deadline, fn, ErrInvalidDeadline)
		return ErrInvalidDeadline
	}
	Hook(deadline, fn, nil)
	return nil
}
