fn main() { mqtt_h::harness::replay_main() }
