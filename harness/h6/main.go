// Command h6 holds the property checks for the v6 module.
package main

import kit "vkit"

func main() { kit.Main() }
