'''Property-based verification machinery for Chandra-MARX/marxs.'''
