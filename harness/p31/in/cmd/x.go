package cmd

import "github.com/davidkleiven/gopf/zverif/cobra"

// ZzRoot is the root command.
func ZzRoot() *cobra.Command { return rootCmd }
