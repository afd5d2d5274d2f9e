use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
