CM = 'CMap<ExplicitRamificationHasseWeil_ValueType, Count_ValueType>'
OPTS = {
 'globals': {'Store::static_store': 'this.static_store', 'Store::static_record': 'this.static_record', 'Store::static_mutex': 'this.static_mutex'},
 'guards': {'Store::static_store': 'this.static_mutex', 'Store::static_record': 'this.static_mutex'},
 'extrafields': {'Store': [('static_store', CM), ('static_record', 'CSet<CVec<(u32, u32)>>'), ('static_mutex', 'CMutex')]},
}
