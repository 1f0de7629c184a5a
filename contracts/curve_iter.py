OPTS = {'itersrc': {'CurveIterator::enumerator_it': 'enumerators'}}
