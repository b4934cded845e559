---- MODULE MCPubSub ----
EXTENDS PubSub
A == {[do |-> "none"], [do |-> "unself"], [do |-> "unreg", ev |-> "a", h |-> 2], [do |-> "reg", ev |-> "a"],
      [do |-> "pub", ev |-> "b"], [do |-> "pub", ev |-> "a"]}
====
