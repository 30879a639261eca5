// stands in for a header of the target
