package zznet

import (
	"fmt"
	"os/user"

	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"
)

// Ask answers the prompts for secrets.
var Ask func(prompt string) (string, error)

// SpeakeasyAsk stands for speakeasy.Ask.
func SpeakeasyAsk(prompt string) (string, error) { return Ask(prompt) }

// UserName is the name of the user.
var UserName = "me"

// UserCurrent stands for user.Current.
func UserCurrent() (*user.User, error) { return &user.User{Username: UserName}, nil }

// Out is what was printed.
var Out string

// Terminal shows what is written to it.
var Terminal terminal

type terminal struct{}

func (terminal) Write(b []byte) (int, error) {
	Out += string(b)
	return len(b), nil
}

// FmtPrintf stands for fmt.Printf.
func FmtPrintf(f string, a ...interface{}) (int, error) {
	Out += fmt.Sprintf(f, a...)
	return 0, nil
}

// FmtPrintln stands for fmt.Println.
func FmtPrintln(a ...interface{}) (int, error) {
	Out += fmt.Sprintln(a...)
	return 0, nil
}

// FmtPrint stands for fmt.Print.
func FmtPrint(a ...interface{}) (int, error) {
	Out += fmt.Sprint(a...)
	return 0, nil
}

// ViperSetConfigFile stands for viper.SetConfigFile.
func ViperSetConfigFile(string) {}

// ViperSetEnvPrefix stands for viper.SetEnvPrefix.
func ViperSetEnvPrefix(string) {}

// ViperBindEnv stands for viper.BindEnv.
func ViperBindEnv(...string) error { return nil }

// bound are the flags that override settings.
var bound = map[string]*pflag.Flag{}

// ViperBindPFlag stands for viper.BindPFlag.
func ViperBindPFlag(key string, f *pflag.Flag) error {
	bound[key] = f
	return nil
}

// ViperGetString stands for viper.GetString.
func ViperGetString(key string) string {
	if f := bound[key]; f != nil && f.Changed {
		return f.Value.String()
	}
	return viper.GetString(key)
}

//gosym:replace (*github.com/spf13/cobra.Command).UsageString
func usageString(c *cobra.Command) string { return "" }
