// The counts of a call.
verus! {

/*@ idlc_codegen/src/counts.rs | struct Counter | @*/

}
