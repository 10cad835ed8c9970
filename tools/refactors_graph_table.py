FA_INIT="    edgeset = set()\n    for u, v in graph.edges:\n        edgeset.add((u, v))\n        edgeset.add((v, u))\n"
FA_LOOP="""    while edgeset:
        u, v = path[-1]
        neighbors = emb[v]
        next_node = neighbors[u]['cw']
        e = (v, next_node)
        if e == path[0]:
            faces.append(path)
            minedge = min(edgeset)
            path = [minedge]
            edgeset.discard(minedge)
        else:
            path.append(e)
            edgeset.discard(e)
"""
FA_START="    faces = []\n    minedge = min(edgeset)\n    path = [minedge]\n    edgeset.discard(minedge)\n"
FA_V="        fverts = []\n        for e in face:\n            fverts.append(e[0])\n            fverts.append(e[1])\n        fverts = list(set(fverts))\n        fverts.sort()\n"
FA_MOVE="        if outer_face == fverts:\n            max_face = face\n            faces.append(faces.pop(faces.index(max_face)))\n            break\n"
FA_MAX="    max_face = None\n    for face in faces:\n        if max_face is None:\n            max_face = face\n        elif len(face) > len(max_face):\n            max_face = face\n"
T=[
("faces",(FA_INIT,"    edgeset = set(graph.edges) | {(v, u) for u, v in graph.edges}\n"),),
("faces",(FA_INIT,"    edgeset = {(u, v) for u, v in graph.edges}\n    edgeset.update((v, u) for u, v in graph.edges)\n"),),
("faces",(FA_INIT,"    edgeset = set()\n    for e in graph.edges():\n        edgeset.add((e[0], e[1]))\n        edgeset.add((e[1], e[0]))\n"),),
("faces",(FA_INIT,"    edgeset = set()\n    for u, v in graph.edges:\n        edgeset |= {(u, v), (v, u)}\n"),),
("faces",(FA_INIT,"    edgeset = set()\n    for u, v in graph.edges:\n        edgeset.update([(u, v), (v, u)])\n"),),
("faces",(FA_LOOP,FA_LOOP.replace("        neighbors = emb[v]\n        next_node = neighbors[u]['cw']\n        e = (v, next_node)","        e = (v, emb[v][u]['cw'])")),),
("faces",(FA_LOOP,FA_LOOP.replace("        u, v = path[-1]\n        neighbors = emb[v]\n        next_node = neighbors[u]['cw']\n        e = (v, next_node)","        last = path[-1]\n        e = (last[1], emb[last[1]][last[0]]['cw'])")),),
("faces",(FA_LOOP,FA_LOOP.replace("while edgeset:","while len(edgeset) > 0:").replace("discard","remove")),),
("faces",(FA_LOOP,FA_LOOP.replace("        if e == path[0]:\n            faces.append(path)\n            minedge = min(edgeset)\n            path = [minedge]\n            edgeset.discard(minedge)\n        else:\n            path.append(e)\n            edgeset.discard(e)\n","        if e != path[0]:\n            path.append(e)\n            edgeset.discard(e)\n            continue\n        faces.append(path)\n        minedge = min(edgeset)\n        path = [minedge]\n        edgeset.discard(minedge)\n")),),
("faces",(FA_LOOP,FA_LOOP.replace("        if e == path[0]:\n            faces.append(path)\n            minedge = min(edgeset)\n            path = [minedge]\n            edgeset.discard(minedge)\n        else:\n            path.append(e)\n            edgeset.discard(e)\n","        if e == path[0]:\n            faces.append(path)\n            path = []\n            e = min(edgeset)\n        path.append(e)\n        edgeset.discard(e)\n")),),
("faces",(FA_START,"    minedge = min(edgeset)\n    path = [minedge]\n    edgeset.discard(minedge)\n    faces = []\n"),),
("faces",(FA_START,"    faces = []\n    path = [min(edgeset)]\n    edgeset.discard(path[0])\n"),),
("faces",(FA_START+"    if not emb:\n        [is_planar, emb] = nx.check_planarity(graph)\n        if not is_planar:\n            return 0\n","    if not emb:\n        is_planar, emb = nx.check_planarity(graph)\n        if not is_planar:\n            return 0\n"+FA_START),),
("faces",(FA_V,"        fverts = sorted({w for e in face for w in e})\n"),),
("faces",(FA_V,"        fverts = set()\n        for e in face:\n            fverts.add(e[0])\n            fverts.add(e[1])\n        fverts = sorted(fverts)\n"),),
("faces",(FA_V,"        fverts = sorted(set([e[0] for e in face] + [e[1] for e in face]))\n"),),
("faces",(FA_MOVE,"        if outer_face == fverts:\n            max_face = face\n            faces.remove(max_face)\n            faces.append(max_face)\n            break\n"),),
("faces",(FA_MOVE,"        if fverts != outer_face:\n            continue\n        max_face = face\n        position = faces.index(max_face)\n        faces.append(faces.pop(position))\n        break\n"),),
("faces",(FA_MAX,"    max_face = max(faces, key=len)\n"),),
("faces",(FA_MAX,""),),
("faces",(FA_MOVE,FA_MOVE),(FA_LOOP+"    if path:\n        faces.append(path)\n",FA_LOOP+"    if len(path) > 0:\n        faces.append(path)\n"),),
("faces",(FA_LOOP,FA_LOOP.replace("        neighbors = emb[v]\n        next_node = neighbors[u]['cw']\n        e = (v, next_node)","        e = _next_edge(emb, u, v)")),"def _next_edge(emb, u, v):\n    return (v, emb[v][u]['cw'])\n\n\n"),
("faces",(FA_INIT,"    edgeset = _directed_edges(graph)\n"),"def _directed_edges(graph):\n    edgeset = set()\n    for u, v in graph.edges:\n        edgeset.add((u, v))\n        edgeset.add((v, u))\n    return edgeset\n\n\n"),
("faces",(FA_V,"        fverts = _vertices(face)\n"),"def _vertices(face):\n    fverts = []\n    for e in face:\n        fverts.append(e[0])\n        fverts.append(e[1])\n    fverts = list(set(fverts))\n    fverts.sort()\n    return fverts\n\n\n"),
("faces",(FA_INIT+FA_START,FA_INIT.replace("edgeset","todo")+FA_START.replace("edgeset","todo").replace("path","walk").replace("faces","result")),(FA_LOOP+"    if path:\n        faces.append(path)\n"+FA_MAX.replace("in faces","in faces"),(FA_LOOP+"    if path:\n        faces.append(path)\n").replace("edgeset","todo").replace("path","walk").replace("faces","result")+"    faces = result\n"+FA_MAX),),
("faces",(FA_LOOP+"    if path:\n        faces.append(path)\n",FA_LOOP.replace("while edgeset:","while True:\n        if not edgeset:\n            break")+"    if path:\n        faces.append(path)\n"),),
("faces",(FA_LOOP,FA_LOOP.replace("        if e == path[0]:","        closes = e == path[0]\n        if closes:")),),
("faces",("    return faces\n","    result = list(faces)\n    return result\n"),),
("faces",("    outer_face.sort()\n","    outer_face = sorted(outer_face)\n"),),
]
D_FE="    face_edges = []\n    for f in F:\n        face_edges.append([tuple(sorted(e)) for e in f])\n"
D_LOOP="""    for e in edges_not_in_t:
        e = tuple(sorted(e))
        u = None
        v = None
        for f in face_edges:
            if e in f and u is None:
                u = face_edges.index(f)
                continue
            if e in f and u is not None:
                v = face_edges.index(f)
                dual_edges.append([u, v])
                break
        if v is None and u is not None:
            dual_edges.append([u, len(face_edges)])
"""
D_H="    H = nx.Graph()\n    H.add_nodes_from(range(len(face_edges)))\n    H.add_edges_from(dual_edges)\n"
T+=[
("dual_graph_H",(D_FE,"    face_edges = []\n    for f in F:\n        sorted_edges = []\n        for e in f:\n            sorted_edges.append(tuple(sorted(e)))\n        face_edges.append(sorted_edges)\n"),),
("dual_graph_H",(D_FE,"    face_edges = []\n    for f in F:\n        face_edges.append([(min(e), max(e)) for e in f])\n"),),
("dual_graph_H",(D_FE,"    face_edges = []\n    for f in F:\n        face_edges.append([(min(e[0], e[1]), max(e[0], e[1])) for e in f])\n"),),
("dual_graph_H",(D_LOOP,"""    for e in edges_not_in_t:
        e = tuple(sorted(e))
        u = None
        v = None
        for k, f in enumerate(face_edges):
            if e in f and u is None:
                u = k
                continue
            if e in f and u is not None:
                v = k
                dual_edges.append([u, v])
                break
        if v is None and u is not None:
            dual_edges.append([u, len(face_edges)])
"""),),
("dual_graph_H",(D_LOOP,"""    for e in edges_not_in_t:
        e = tuple(sorted(e))
        u = None
        v = None
        for f in face_edges:
            if e not in f:
                continue
            if u is None:
                u = face_edges.index(f)
            else:
                v = face_edges.index(f)
                dual_edges.append([u, v])
                break
        if v is None and u is not None:
            dual_edges.append([u, len(face_edges)])
"""),),
("dual_graph_H",(D_LOOP,"""    for e in edges_not_in_t:
        e = tuple(sorted(e))
        ends = [k for k, f in enumerate(face_edges) if e in f]
        if len(ends) >= 2:
            dual_edges.append([ends[0], ends[1]])
        elif len(ends) == 1:
            dual_edges.append([ends[0], len(face_edges)])
"""),),
("dual_graph_H",(D_LOOP,"""    for a, b in edges_not_in_t:
        e = (min(a, b), max(a, b))
        u = None
        v = None
        for f in face_edges:
            if e in f and u is None:
                u = face_edges.index(f)
                continue
            if e in f and u is not None:
                v = face_edges.index(f)
                dual_edges.append([u, v])
                break
        if v is None and u is not None:
            dual_edges.append([u, len(face_edges)])
"""),),
("dual_graph_H",(D_LOOP,D_LOOP.replace("dual_edges.append([u, v])","dual_edges.append((u, v))").replace("dual_edges.append([u, len(face_edges)])","dual_edges.append((u, len(face_edges)))")),),
("dual_graph_H",(D_H,"    H = nx.Graph()\n    for k in range(len(face_edges)):\n        H.add_node(k)\n    for a, b in dual_edges:\n        H.add_edge(a, b)\n"),),
("dual_graph_H",(D_H,"    H = nx.Graph()\n    n_faces = len(face_edges)\n    H.add_nodes_from(range(n_faces))\n    H.add_edges_from(dual_edges)\n"),),
("dual_graph_H",(D_H+"    nx.is_tree(H)\n",D_H),),
("dual_graph_H",(D_FE+"    edges_not_in_t = G.edges() - T.edges()\n    dual_edges = []\n","    dual_edges = []\n    edges_not_in_t = G.edges() - T.edges()\n"+D_FE),),
("dual_graph_H",("    edges_not_in_t = G.edges() - T.edges()\n","    edges_not_in_t = [e for e in G.edges() if not T.has_edge(*e)]\n"),),
("dual_graph_H",("    edges_not_in_t = G.edges() - T.edges()\n","    tree_edges = T.edges()\n    edges_not_in_t = G.edges() - tree_edges\n"),),
("dual_graph_H",(D_LOOP,D_LOOP.replace("            if e in f and u is None:\n                u = face_edges.index(f)\n                continue\n            if e in f and u is not None:\n                v = face_edges.index(f)\n                dual_edges.append([u, v])\n                break\n","            if e in f:\n                if u is None:\n                    u = face_edges.index(f)\n                else:\n                    v = face_edges.index(f)\n                    dual_edges.append([u, v])\n                    break\n")),),
("dual_graph_H",(D_FE,"    face_edges = _undirected(F)\n"),"def _undirected(F):\n    out = []\n    for f in F:\n        out.append([tuple(sorted(e)) for e in f])\n    return out\n\n\n"),
("dual_graph_H",("    dual_edges = []\n"+D_LOOP+D_H,"    H = nx.Graph()\n    H.add_nodes_from(range(len(face_edges)))\n"+D_LOOP.replace("dual_edges.append([u, v])","H.add_edge(u, v)").replace("dual_edges.append([u, len(face_edges)])","H.add_edge(u, len(face_edges))")),),
]
P_T="    for e in T.edges():\n        u = min(e[0], e[1])\n        v = max(e[0], e[1])\n        orientation[u, v] = 1\n        orientation[v, u] = -1\n"
P_L="    while len(H.nodes()) > 1:\n        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n        if len(leaves) == 0:\n            break\n        for leaf in leaves:\n            face = F[leaf]\n            complete_face(orientation, face)\n            H.remove_node(leaf)\n"
T+=[
("pfo_algorithm",(P_T,"    for a, b in T.edges():\n        u, v = sorted((a, b))\n        orientation[u, v] = 1\n        orientation[v, u] = -1\n"),),
("pfo_algorithm",(P_T,"    for a, b in T.edges():\n        if a > b:\n            a, b = b, a\n        orientation[a, b] = 1\n        orientation[b, a] = -1\n"),),
("pfo_algorithm",(P_T,P_T.replace("min(e[0], e[1])","min(e)").replace("max(e[0], e[1])","max(e)")),),
("pfo_algorithm",(P_L,P_L.replace("            face = F[leaf]\n            complete_face(orientation, face)\n","            complete_face(orientation, F[leaf])\n            face = F[leaf]\n")),),
("pfo_algorithm",(P_L,P_L.replace("        if len(leaves) == 0:","        if not leaves:")),),
("pfo_algorithm",(P_L,P_L.replace("        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n","        leaves = []\n        for x in H.nodes():\n            if x != root and H.degree(x) == 1:\n                leaves.append(x)\n")),),
("pfo_algorithm",(P_L,P_L.replace("len(H.nodes()) > 1","H.number_of_nodes() > 1")),),
("pfo_algorithm",(P_L,P_L.replace("len(H.nodes()) > 1","len(H) > 1")),),
("pfo_algorithm",("    root = max(H.nodes())\n","    root = len(F) - 1\n"),),
("pfo_algorithm",("    root = max(H.nodes())\n","    outer = max(H)\n    root = outer\n"),),
("pfo_algorithm",("    orientation = nx.adjacency_matrix(graph).toarray()\n    orientation = orientation * 99j\n","    orientation = 99j * nx.adjacency_matrix(graph).toarray()\n"),),
("pfo_algorithm",("    orientation = nx.adjacency_matrix(graph).toarray()\n    orientation = orientation * 99j\n","    adjacency = nx.to_numpy_array(graph)\n    orientation = adjacency * 99j\n"),),
("pfo_algorithm",("    [a, emb] = nx.check_planarity(graph)\n","    _, emb = nx.check_planarity(graph)\n"),),
("pfo_algorithm",("    pfo = np.real(orientation)\n","    pfo = orientation.real\n"),),
("pfo_algorithm",(P_T,""),("    root = max(H.nodes())\n",P_T+"    root = max(H.nodes())\n"),),
("pfo_algorithm",(P_T,"    _orient_tree(orientation, T)\n"),"def _orient_tree(orientation, T):\n    for e in T.edges():\n        u = min(e[0], e[1])\n        v = max(e[0], e[1])\n        orientation[u, v] = 1\n        orientation[v, u] = -1\n\n\n"),
("pfo_algorithm",(P_L,P_L.replace("    while len(H.nodes()) > 1:\n        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n        if len(leaves) == 0:\n            break\n","    leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n    while leaves:\n").replace("            H.remove_node(leaf)\n","            H.remove_node(leaf)\n            XX\n")),),
("pfo_algorithm",(P_L,P_L.replace("[x for x in H.nodes() if H.degree(x) == 1 and x != root]","[node for node, deg in H.degree() if deg == 1 and node != root]")),),
("pfo_algorithm",(P_L,P_L.replace("leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]","leaves = _leaves(H, root)")),"def _leaves(H, root):\n    return [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n\n\n"),
]
V="            if verbose:\n                plot_planar_embedding(graph, np.real(orientation), title='Face {}: {}'.format(leaf, face))\n"
T[-3]=("pfo_algorithm",(P_L+V,"    leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n    while leaves:\n        for leaf in leaves:\n            face = F[leaf]\n            complete_face(orientation, face)\n            H.remove_node(leaf)\n"+V.replace("XX","")+"        leaves = [x for x in H.nodes() if H.degree(x) == 1 and x != root]\n"),)
