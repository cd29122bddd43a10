"""E01: media queries against the current environment."""
from .. import media
from ..engine import Check


class E01(Check):
    RUNS = {'quick': 6000, 'thorough': 200000}
    RULE = ('random histories of environment changes on two windows, '
            'interleaved with evaluation of media query lists created at '
            'different moments and of sheets gated by the same queries; '
            'non-trivial: a query was asked before and after a change and '
            'both answers occurred')
    STUB = ['network (no requests in this property)']

    def gen(self, rng, index, tier):
        ops = []
        n = 0
        nq = rng.choice([2, 4, 6])
        for _ in range(rng.choice([6, 15, 30])):
            r = rng.random()
            w = rng.randrange(2)
            if n < nq and r < 0.3:
                ops.append(['new', n, w, media.gen(rng),
                            rng.choice(['mql', 'mql', 'sheet', 'rule'])])
                n += 1
            elif r < 0.57:
                ops.append(['w', w, media.gen_env_op(rng)])
            elif r < 0.6:
                # another document element
                ops.append(['root', w, rng.choice(
                    ['svg', 'svg', 'html', 'plain', 'none'])])
            elif r < 0.63:
                ops.append(['gc'])
            elif n:
                ops.append(['ask', rng.randrange(n)])
        ops += [['ask', i] for i in range(n)]
        if any(op[0] == 'root' for op in ops):
            ops += [['root', w, 'svg'] for w in range(2)]
            ops += [['ask', i] for i in range(n)]
        return {'ops': ops}

    def run(self, scenario, ctx):
        import gc
        from svgpy import window as W
        from svgpy.window import SVGDOMImplementation, Window
        wins = [Window(SVGDOMImplementation()) for _ in range(2)]
        envs = [media.default_env() for _ in range(2)]
        roots = [win.document.document_element for win in wins]
        gwin = W
        base = (gwin.inner_width, gwin.screen.width)
        lists = {}
        answers = {}
        svg = 'http://www.w3.org/2000/svg'
        for op in scenario['ops']:
            if op[0] in ('w', 'new') and not envs[
                    op[1] if op[0] == 'w' else op[2]]['has_root'] and (
                        op[0] == 'w' and op[2][1] == 'root'
                        or op[0] == 'new' and op[4] != 'mql'):
                ctx.count('skipped')
                continue
            if op[0] == 'w':
                media.apply_window(wins[op[1]], op[2])
                media.apply_env(envs[op[1]], op[2])
                ctx.count('env.' + op[2][1])
            elif op[0] == 'root':
                doc = wins[op[1]].document
                if doc.document_element is not None:
                    doc.remove(doc.document_element)
                if op[2] == 'svg':
                    doc.append(roots[op[1]])
                elif op[2] == 'html':
                    doc.append(doc.create_element_ns(
                        'http://www.w3.org/1999/xhtml', 'html'))
                    doc.document_element.set('width', '100')
                elif op[2] == 'plain':
                    doc.append(doc.create_element('a'))
                envs[op[1]]['has_root'] = op[2] == 'svg'
                ctx.count('env.root-' + op[2])
            elif op[0] == 'gc':
                gc.collect()
                ctx.count('fault.gc')
            elif op[0] == 'new':
                _, n, w, query, how = op
                text = media.text(query)
                obj = None
                if how == 'mql':
                    obj = wins[w].match_media(text)
                else:
                    doc = wins[w].document
                    root = doc.document_element
                    style = doc.create_element_ns(svg, 'style')
                    prop = 'x{}'.format(n)
                    if how == 'sheet':
                        style.set('media', text)
                        style.text = '.{} {{ fill: yes }}'.format(prop)
                    else:
                        style.text = '@media %s { .%s { fill: yes } }' % (
                            text, prop)
                    root.append(style)
                    obj = doc.create_element_ns(svg, 'rect')
                    obj.set('class', prop)
                    root.append(obj)
                lists[n] = (obj, w, query, text, how)
            else:
                if op[1] not in lists:
                    ctx.count('skipped')
                    continue
                obj, w, query, text, how = lists[op[1]]
                if how != 'mql' and not envs[w]['has_root']:
                    ctx.count('skipped')
                    continue
                want = media.matches(query, envs[w])
                if how == 'mql':
                    got = obj.matches
                    ctx.check(got is True or got is False, 'not-bool', text)
                    again = wins[w].match_media(text).matches
                    ctx.equal(again, got, 'media:fresh-differs', text)
                else:
                    got = obj.get_inherited_style()['fill'] == 'yes'
                ctx.check(got == want, 'media:' + how, lambda: (
                    '{} is {}, expected {} in {}'.format(
                        text, got, want, envs[w])))
                answers.setdefault(op[1], set()).add(got)
                ctx.event('ask', text, got)
                ctx.state((text, got, repr(envs[w])))
            ctx.event(op)
        ctx.equal((gwin.inner_width, gwin.screen.width), base,
                  'media:other-window', 'the module window')
        ctx.nontrivial = any(len(a) == 2 for a in answers.values())


CHECKS = {'E01': E01}
