# guarded mutants: a fault (base) that shows only when a condition (guard) holds
import json
OB='program/src/state/orderbook.rs'; EQ='program/src/state/event_queue.rs'; CB='program/src/state/critbit.rs'
MC='program/src/processor/mass_cancel_orders.rs'; CO='program/src/processor/cancel_order.rs'
# guards inside the matching loop of new_order, right after base_trade_qty is known
G_loop={
 'head>200':'event_queue.header.head > 200',
 'seq>3000':'event_queue.header.seq_num > 3000',
 'makers>400':'opposite_slab.header.leaf_count > 400',
 'lastmaker':'opposite_slab.header.leaf_count == 1 && opposite_slab.header.leaf_bump_index > 20',
 'price62':'trade_price > 1 << 62',
 'qty60':'base_trade_qty > 1 << 60',
 'price1':'trade_price < 1 << 20',
 '77th':'trade_price % 7 == 3 && base_trade_qty % 11 == 5',
 'fills40':'max_ml - match_limit >= 40',
 'lastslots':'event_queue.header.count as usize + 2 == event_queue.events.len()',
 'quotegone':'quote_qty_remaining - quote_maker_qty == 0',
 'freelist':'opposite_slab.header.leaf_free_list_len > 60',
 'min1':'min_base_order_size == 1 && base_trade_qty == 1',
 'samequeue':'event_queue.header.head as u64 + event_queue.header.count == event_queue.events.len() as u64',
 'exactmin':'offer_size - base_trade_qty == min_base_order_size',
 'oldmaker':'event_queue.header.seq_num > 1000 && { let k = best_bo_ref.order_id() as u64; (if side == Side::Bid { k } else { !k }) + 1000 < event_queue.header.seq_num }',
}
B_fill={
 # base: text put in front of FillEvent, property
 'quote-1':('quote_maker_qty - 1','C03','quote_size: quote_maker_qty,','quote_size: if G { quote_maker_qty - 1 } else { quote_maker_qty },'),
 'takercb':(None,'C18','.push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))','.push_back(maker_fill, Some(maker_callback_info), if G { None } else { Some(&callback_info) })'),
 'outbase':(None,'C04','                    base_size: best_bo_ref.base_quantity,\n                    tag: EventTag::Out as u8,\n                    _padding: [0; 14],\n                };\n\n                let (_, out','                    base_size: if G { 0 } else { best_bo_ref.base_quantity },\n                    tag: EventTag::Out as u8,\n                    _padding: [0; 14],\n                };\n\n                let (_, out'),
 'residue':(None,'C11','            if best_bo_ref.base_quantity < min_base_order_size {','            if best_bo_ref.base_quantity < min_base_order_size && (best_bo_ref.base_quantity == 0 || !(G)) {'),
 'stop':(None,'C03','            if quote_maker_qty == 0 {\n                break;','            if quote_maker_qty == 0 || (max_ml != match_limit && (G)) {\n                break;'),
 'selftrade':(None,'C08','            if self_trade_behavior != SelfTradeBehavior::DecrementTake {','            if self_trade_behavior != SelfTradeBehavior::DecrementTake && !(G) {'),
 'summary':(None,'C07','            base_qty_remaining -= base_trade_qty;\n','            base_qty_remaining -= base_trade_qty;\n            if (G) && base_qty_remaining > 0 { base_qty_remaining -= 1; }\n'),
}
out=[]
pre=[("            mut match_limit,\n        } = params;\n","            mut match_limit,\n        } = params;\n        let max_ml = match_limit;\n")]
for bn,(x,prop,old,new) in B_fill.items():
    for gn,g in G_loop.items():
        if bn=='outbase' or bn=='residue':
            if gn in('exactmin',): continue
            g2=g
        else: g2=g
        if bn=='stop' or bn=='quote-1' or bn=='takercb' or bn=='residue' or bn=='outbase' or bn=='selftrade' or bn=='summary': pass
        # evaluate the guard once, early (values as before this fill)
        hook=("            if quote_maker_qty == 0 {\n","            let guard_on = %s;\n            if quote_maker_qty == 0 {\n"%g2)
        edits=list(pre)
        if bn=='stop':
            edits.append((old,"            let guard_on = %s;\n"%g2+new.replace('G','guard_on')))
        else:
            edits.append(hook); edits.append((old,new.replace('(G)','guard_on').replace('if G ','if guard_on ')))
        out.append(dict(id=f'{bn}@{gn}',prop=prop,file=OB,edits=edits))
# posting
G_post={
 'seq>3000':'event_queue.header.seq_num > 3000',
 'price62':'limit_price > 1 << 62',
 'qty60':'base_qty_to_post > 1 << 60',
 '77th':'limit_price % 7 == 3 && base_qty_to_post % 11 == 5',
 'book>400':'self.get_tree(side).header.leaf_count > 400',
 'free>60':'self.get_tree(side).header.leaf_free_list_len > 60',
 'traded':'max_ml - match_limit >= 20',
 'head>200':'event_queue.header.head > 200',
 'exactmin':'base_qty_to_post == min_base_order_size && max_ml != match_limit',
 'first':'self.get_tree(side).header.leaf_count == 0 && self.get_tree(side).header.leaf_bump_index > 20',
}
B_post={
 'qty-1':('C04','            base_quantity: base_qty_to_post,\n        };\n        let insert','            base_quantity: base_qty_to_post - guard_on as u64,\n        };\n        let insert'),
 'posted':('C07','            total_base_qty_posted: base_qty_to_post,','            total_base_qty_posted: base_qty_to_post - guard_on as u64,'),
 'cb':('C18','        *self.get_tree(side).get_callback_info_mut(k) = callback_info;','        if !guard_on { *self.get_tree(side).get_callback_info_mut(k) = callback_info; }'),
 'seqback':('C06','        let new_leaf_order_id = event_queue.gen_order_id(limit_price, side);','        if guard_on { event_queue.header.seq_num -= 1; }\n        let new_leaf_order_id = event_queue.gen_order_id(limit_price, side);'),
 'noboot':('C09','            if should_boot {','            if should_boot && !guard_on {'),
}
for bn,(prop,old,new) in B_post.items():
    for gn,g in G_post.items():
        edits=list(pre)+[("        let new_leaf_order_id =","        let guard_on = %s;\n        let new_leaf_order_id ="%g)]
        edits.append((old,new) if bn!='seqback' else ("        let new_leaf_order_id = event","        if guard_on { event_queue.header.seq_num -= 1; }\n        let new_leaf_order_id = event"))
        out.append(dict(id=f'{bn}@{gn}',prop=prop,file=OB,edits=edits))
# queue
for gn,g in {'head>200':'self.header.head > 200','n>100':'number_of_entries_to_pop > 100','full':'self.header.count == self.events.len() as u64','wrap':'self.header.head + self.header.count > self.events.len() as u64 && self.header.count > 10','cap>500':'self.events.len() > 500','seq>3000':'self.header.seq_num > 3000','all':'self.header.count == number_of_entries_to_pop && self.header.head > 30'}.items():
    out.append(dict(id=f'pop+1@{gn}',prop='C20',file=EQ,edits=[("        self.header.count -= capped_number_of_entries_to_pop;","        let guard_on = %s && self.header.count > 1;\n        self.header.count -= capped_number_of_entries_to_pop;\n        if guard_on && capped_number_of_entries_to_pop > 0 { self.header.head += 1; self.header.count -= (self.header.count > 0) as u64; }"%g)]))
    gg=g.replace('self.','s.').replace('number_of_entries_to_pop','s.header.count')
    a="        let event_idx =\n            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();"
    out.append(dict(id=f'get@{gn}',prop='C23',file=EQ,edits=[(a,a.replace('let event','let mut event')+"\n        if { let s = self.queue; "+gg+" } && self.current_index == 3 { event_idx = self.queue.header.head as usize; }")]))
# trie
G_tree={'count>300':'self.header.leaf_count > 300','free>60':'self.header.leaf_free_list_len > 60','ifree>20':'self.header.inner_node_free_list_len > 20','cap>1000':'self.leaf_nodes.len() > 1000','two':'self.header.leaf_count == 2 && self.header.leaf_bump_index > 30','key62':'search_key >> 126 != 0','77th':'(search_key >> 64) % 77 == 5','bump':'self.header.leaf_bump_index as usize == self.leaf_nodes.len() && self.leaf_nodes.len() > 30'}
for gn,g in G_tree.items():
    out.append(dict(id=f'noinnerfree@{gn}',prop='C17',file=CB,edits=[("        self.free_inner_node(parent_h);\n        Some((rem","        if !(%s) { self.free_inner_node(parent_h); }\n        Some((rem"%g)]))
    out.append(dict(id=f'noleaffree@{gn}',prop='C17',file=CB,edits=[("        self.free_leaf(child_h);\n","        if !(%s) { self.free_leaf(child_h); }\n"%g)]))
    out.append(dict(id=f'find@{gn}',prop='C23',file=CB,edits=[("        let mut node_handle: NodeHandle = self.root()?;","        let mut node_handle: NodeHandle = self.root()?;\n        if (%s) && search_key %% 3 == 1 { return None; }"%g)]))
    out.append(dict(id=f'notfound@{gn}',prop='C13',file=CB,edits=[("                    #[cfg(not(target_os = \"solana\"))]\n                    if leaf.order_id() != search_key {\n                        return None;\n                    }\n\n                    break;","                    if (leaf.order_id() != search_key) && !((%s) && leaf.order_id() >> 64 == search_key >> 64) {\n                        return None;\n                    }\n\n                    break;"%g)]))
for gn,g in {'n>100':'n > 100','n==1':'n == 1','sides':'(bids > 0 && asks > 0 && bids == asks)','big':'total_base_qty > 1 << 60','zero':'total_quote_qty == 0 && n > 1','last':'n > 20 && false == true || n == 37'}.items():
    out.append(dict(id=f'mass@{gn}',prop='C07',file=MC,edits=[("    for order_id in params.order_ids {","    let n = params.order_ids.len();\n    let bids = params.order_ids.iter().filter(|x| (**x as u64) >> 63 == 1).count();\n    let asks = n - bids;\n    for order_id in params.order_ids {"),("    let order_summary","    if %s { total_base_qty -= 1; }\n    let order_summary"%g)]))
    out.append(dict(id=f'massskip@{gn}',prop='C13',file=MC,edits=[("    for order_id in params.order_ids {","    let n = params.order_ids.len();\n    let bids = params.order_ids.iter().filter(|x| (**x as u64) >> 63 == 1).count();\n    let asks = n - bids;\n    let mut done = 0;\n    for order_id in params.order_ids {\n        done += 1;\n        let _ = (bids, asks);\n        if done == n && n > 1 && (%s) { continue; }"%g)]))
for gn,g in {'qty60':'total_base_qty > 1 << 60','77th':'total_base_qty % 77 == 5','zeroq':'total_quote_qty == 0','price62':'leaf_node.price() > 1 << 62'}.items():
    out.append(dict(id=f'cancelq@{gn}',prop='C07',file=CO,edits=[("        .ok_or(AoError::NumericalOverflow)?;\n\n    let order_summary","        .ok_or(AoError::NumericalOverflow)?;\n    let total_quote_qty = if %s { total_quote_qty + 1 } else { total_quote_qty };\n    let order_summary"%g)]))
json.dump(out,open('/tmp/plant/gm/list.json','w'),indent=1)
print(len(out))
R='/tmp/plant/devrepo/'
for m in out:
    s=open(R+m['file']).read()
    for a,b in m['edits']:
        if s.count(a)!=1: print(m['id'],s.count(a),repr(a[:70])); break
        s=s.replace(a,b)
