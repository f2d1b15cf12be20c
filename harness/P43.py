import operator
import os
import numpy
from sv.prop import Prop
from sv import fakes
from .lib import *

P = Prop('P43', bounds='images of 1x1 to 4x5 pixels of three or four channels with arbitrary uint8 content, every chip size up to the image and several overlaps, classifiers of one to three classes whose scores are weighted sums of every value they are given, resizing to other chip sizes, both normalisations, every class looked for; training sets of 1 to 7 images in up to three classes under several batch sizes',
         assumptions=['Keras, TensorFlow and the image resizing of scipy.misc are stand-ins with the documented interface (they are not installed here): the model is any fixed function of its input of weighted-sum form, training runs batches until the number of steps is reached',
                      'float64 rounding is modelled as exact real arithmetic'],
         outside='the networks themselves, GPU sessions, images that are not of 8 bit samples, chips of one single value under the per-chip normalisation (division by zero)')
MOD = 'resippy.image_recognition.neural_net_model_scoring.keras_image_scoring'
TRAIN = 'resippy.image_recognition.neural_net_model_training.keras_model_training'


def shrink(a, h, w):
    """stand-in for resizing: the nearest cells (rows and columns each by their own factor)"""
    return [[[a[i * len(a) // h][j * len(a[0]) // w][k] for k in range(3)] for j in range(w)] for i in range(h)]


def weight(i, j, k, c):
    return 1.0 + 7 * i + 3 * j + 0.5 * k + (c + 1) * (c + 2) * (i + 2 * j + 4 * k + 1) / 16.0


def score(chip, n):
    out = []
    for c in range(n):
        s = 0.0
        for i, row in enumerate(chip):
            for j, px in enumerate(row):
                for k, v in enumerate(px):
                    s = s + weight(i, j, k, c) * v
        out.append(s)
    return out


class Model:
    def __init__(self, cx, n, size):
        self.cx, self.n, self.size = cx, n, size

    def predict(self, x, **k):
        self.cx.true(len(x.shape) == 4 and tuple(x.shape[1:]) == self.size + (3,), 'chips have the size and channels of the model')
        v = [[[[x[m, i, j, c] for c in range(3)] for j in range(x.shape[2])] for i in range(x.shape[1])] for m in range(x.shape[0])]
        return self.cx.arr([score(a, self.n) for a in v])


class Ledger:
    def __init__(self):
        self.seen = []

    def set_status(self, text, percent):
        self.seen.append((text, percent))


def env(cx):
    fakes.use_gdal(cx)
    fakes.use_plots(cx)
    cx.fake('imageio', fakes.Namespace('imageio'))

    def resize(a, size, *x, **k):
        h, w = (int(v) for v in size)
        return cx.arr(shrink([[[a[i, j, c] for c in range(a.shape[2])] for j in range(a.shape[1])] for i in range(a.shape[0])], h, w), 'uint8')

    def to_array(a, *x, **k):
        return a + 0.0
    cx.fake('scipy', fakes.Namespace('scipy', misc=fakes.Namespace('scipy.misc', imresize=resize)))
    im = fakes.Namespace('keras.preprocessing.image', img_to_array=to_array)
    cx.fake('keras', fakes.Namespace('keras', preprocessing=fakes.Namespace('keras.preprocessing', image=im), models=fakes.Namespace('keras.models', Model=Model)))
    return cx.mod(MOD)


Q = [((4, 5, 3), (2, 3), (2, 3), 2, {}, None), ((4, 5, 4), (3, 2), (3, 2), 3, {}, None), ((4, 5, 3), (4, 5), (4, 5), 2, {}, None), ((4, 3, 3), (4, 3), (2, 1), 1, {}, 0),
     ((4, 4, 3), (2, 4), (2, 2), 3, {}, 1), ((4, 4, 3), (2, 2), (2, 2), 1, dict(image_overlap_x_percent=0.0), 0), ((2, 4, 3), (2, 2), (1, 2), 2, dict(image_overlap_x_percent=0.0, image_overlap_y_percent=0.5), 1),
     ((3, 4, 4), (2, 2), (2, 2), 2, dict(normalize_method='min_max_per_chip'), 0), ((3, 3, 3), (2, 2), (1, 2), 2, dict(normalize_method='none'), None), ((3, 4, 3), (3, 2), (3, 2), 2, dict(atk_chain_ledger=1), 1),
     ((6, 3, 3), (4, 2), (2, 2), 2, dict(image_overlap_y_percent=0.25, image_overlap_x_percent=0.5), None), ((7, 4, 3), (3, 4), (3, 2), 1, dict(image_overlap_y_percent=0.7, image_overlap_x_percent=0.0), None), ((4, 6, 3), (1, 4), (1, 4), 2, dict(image_overlap_x_percent=0.75, image_overlap_y_percent=0.0), 0)]


@P.case(quick=Q, thorough=[(s, c, t, n, o, f) for s in ((4, 5, 3), (5, 4, 4)) for c in ((2, 2), (2, 3), (4, 1)) for t in (c, (1, 2)) for n, f in ((1, 0), (2, None), (3, 2)) for o in ({}, dict(image_overlap_x_percent=0.0))], budget=100)
def scoring(cx):
    shape, (h, w), target, n, opt, find = cx.p
    m = env(cx)
    d = cx.array('d', shape, dtype='uint8')
    norm = opt.get('normalize_method', 'divide_by_255')
    opt = dict(opt)
    if 'atk_chain_ledger' in opt:
        opt['atk_chain_ledger'] = Ledger()
    if find is not None:
        opt.update(labels=['ship', 'car', 'plane'][:n], thing_to_find=['ship', 'car', 'plane'][find])
    vals = [[[d[i, j, k] + 0.0 for k in range(3)] for j in range(shape[1])] for i in range(shape[0])]
    if norm.startswith('min'):
        # no chip of a single value
        for i in range(shape[0]):
            for j in range(shape[1]):
                cx.assume(vals[i][j][0] < vals[i][j][1])
        vals = [[[v for v in p] for p in row] for row in vals]
    got, uls = m.chip_and_score_image(d, Model(cx, n, target), w, h, target[1], target[0], **opt)
    uls = [(operator.index(a), operator.index(b)) for a, b in uls]
    # the chips are those of the whole image with the requested overlap
    cx.true(len(set(uls)) == len(uls) and len({(i, j) for y, x in uls for i in range(y, y + h) for j in range(x, x + w)}) == shape[0] * shape[1], 'the chips cover the image')
    for k, (size, total, over) in enumerate(((h, shape[0], int(h * opt.get('image_overlap_y_percent', 0.5))), (w, shape[1], int(w * opt.get('image_overlap_x_percent', 0.5))))):
        at = sorted({u[k] for u in uls})
        cx.true(at[0] == 0 and at[-1] == total - size and all(b - a == size - over for a, b in zip(at[:-2], at[1:-1])), 'requested overlap')
    cx.true(tuple(got.shape) == ((len(uls),) if find is not None else (len(uls), n)), 'one score vector per chip')
    ref = []
    for y, x in uls:
        chip = shrink([[vals[i][j] for j in range(x, x + w)] for i in range(y, y + h)], *target)
        flat = [v for row in chip for p in row for v in p]
        if norm == 'divide_by_255':
            lo, span = 0.0, 255.0
        elif norm.startswith('min'):
            lo, hi = flat[0], flat[0]
            for v in flat[1:]:
                lo, hi = cx.min(lo, v), cx.max(hi, v)
            span = hi - lo
        else:
            lo, span = 0.0, 1.0
        s = score([[[(v - lo) / span for v in p] for p in row] for row in chip], n)
        ref.append(s[find] if find is not None else s)
    cx.eq(got, ref, 'scores of each chip')


class Layers:
    def __init__(self, n):
        self.layers = [fakes.Namespace('layer', trainable=None) for i in range(n)]


class Net:
    """stand-in for a Keras model: one batch a step while the step count is below the number of steps"""
    def __init__(self, inputs=None, outputs=None):
        self.inputs, self.outputs, self.log = inputs, outputs, []
        self.input = 'input of the base model'

    def load_weights(self, f):
        self.log.append(('weights', f))

    def compile(self, **k):
        self.log.append(('compile', k))

    def _run(self, gen, steps):
        seen, done = [], 0
        while done < steps:
            seen.append(done % gen.batches())
            done += 1
        return seen

    def fit_generator(self, gen, steps_per_epoch=None, epochs=1, callbacks=None, validation_data=None, validation_steps=None, **k):
        self.gen, self.val, self.epochs, self.callbacks = gen, validation_data, epochs, callbacks
        self.seen, self.vseen = self._run(gen, steps_per_epoch), self._run(validation_data, validation_steps)

    def fit(self, gen, **k):
        self.fit_generator(gen, **k)


class Gen:
    def __init__(self, n, batch, classes):
        self.filenames, self.batch_size, self.n, self.samples = ['%s/%d.png' % (classes[i % len(classes)], i) for i in range(n)], batch, n, n
        self.class_indices = {c: i for i, c in enumerate(classes)}

    def batches(self):
        return -(-self.n // self.batch_size)


def train_env(cx):
    made = []

    def call(kind):
        def f(*a, **k):
            made.append((kind, a, k))
            return (kind, a, k)
        return f

    class Nets(Net):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(('model', a, k, self))

    class DataGen:
        def __init__(self, **k):
            self.k = k

        def flow_from_directory(self, d, **k):
            return (d, self.k, k)

    class Layer:
        def __init__(self, kind, a, k):
            self.kind, self.a, self.k = kind, a, k

        def __call__(self, x):
            return (self.kind, self.a, tuple(sorted(self.k.items())), x)

    def layer(kind):
        return lambda *a, **k: Layer(kind, a, k)
    NS = fakes.Namespace
    image = NS('keras.preprocessing.image', ImageDataGenerator=DataGen, DirectoryIterator=object)
    apps = {n.lower(): NS('keras.applications.' + n.lower(), **{n: call(n)}) for n in ('VGG16', 'VGG19', 'ResNet50')}
    class Opt:
        pass
    k = NS('keras', applications=NS('keras.applications', **apps), preprocessing=NS('keras.preprocessing', image=image),
           layers=NS('keras.layers', **{n: layer(n) for n in ('GlobalAveragePooling2D', 'Dense', 'Dropout')}),
           models=NS('keras.models', Model=Nets), optimizers=NS('keras.optimizers', Optimizer=Opt, Adam=lambda *a, **k: 'adam'),
           callbacks=NS('keras.callbacks', TensorBoard=call('board'), ModelCheckpoint=call('checkpoint')),
           backend=NS('keras.backend', tensorflow_backend=NS('keras.backend.tensorflow_backend', set_session=lambda s: None)))
    cx.fake('keras', k)
    cx.fake('keras_applications', NS('keras_applications', inception_v3=NS('i', InceptionV3=None), mobilenet=NS('m', MobileNet=None), mobilenet_v2=NS('m2', MobileNetV2=None)))

    class Config:
        def __init__(self, **k):
            self.gpu_options = NS('g', allow_growth=False)
    cx.fake('tensorflow', NS('tensorflow', ConfigProto=Config, GPUOptions=lambda **k: None, Session=lambda **k: None, Tensor=object))
    return made


@P.case(quick=[(1, 3), (7, 3)], thorough=[(7, 1), (12, 3)], budget=100, once=True)
def training(cx):
    """each labelled image once per epoch, for any number of images and batch size"""
    n, ncls = cx.p
    made = train_env(cx)
    m = cx.mod(TRAIN)
    count, batch, vcount, vbatch = (operator.index(cx.int(s, 1, n)) for s in ('count', 'batch', 'vcount', 'vbatch'))
    epochs = cx.int('epochs', 1, 5)
    classes = ['plane', 'Ship', 'car'][:ncls]
    classes = sorted(classes)
    gen, val = Gen(count, batch, classes), Gen(vcount, vbatch, classes)
    # the mapping of classes to indices may have been filled in any order
    gen.class_indices = dict(sorted(gen.class_indices.items(), key=lambda kv: -kv[1]))
    net = Net()
    cx.memory_files()
    with Scratch() as d:
        m.train_model(net, gen, val, d + '/out', n_epochs=epochs, loss='L', optimizer='O', metrics=['M'], model_weights_file='w.h5' if n > 1 else None)
        labels = cx.mod('resippy.utils.file_utils').read_text_list_from_file(d + '/out/labels.txt')
    cx.true([gen.class_indices[str(c)] for c in labels] == list(range(ncls)), 'labels in the order of the class indices')
    cx.true(dict(m.get_class_indices(gen)) == {c: i for i, c in enumerate(classes)}, 'class indices')
    cx.true(net.gen is gen and net.val is val, 'the images of each set')
    cx.true(sorted(net.seen) == list(range(gen.batches())), 'each training image once per epoch')
    cx.true(sorted(net.vseen) == list(range(val.batches())), 'each validation image once')
    cx.eq(net.epochs, epochs, 'epochs')
    cx.true([l for l in net.log if l[0] == 'compile'] == [('compile', dict(loss='L', optimizer='O', metrics=['M']))], 'training options')
    cx.true([l for l in net.log if l[0] == 'weights'] == ([('weights', 'w.h5')] if n > 1 else []), 'initial weights')
    cp = [k for k in made if k[0] == 'checkpoint']
    cx.true(len(cp) == 1 and cp[0][1][0].endswith('/out/trained_model.h5') and any(c is k or c == cp[0] for k in cp for c in net.callbacks), 'the best model is kept')


@P.case(quick=[(), (1,), (0, 1)])
def setting_up(cx):
    flips = cx.p
    made = train_env(cx)
    m = cx.mod(TRAIN)
    a, b = m.setup_train_and_val_image_generators(224, 'train', 'val', batchsize=7, rescale=0.5, horizontal_flip=0 in flips, vertical_flip=1 in flips)
    for g, d in ((a, 'train'), (b, 'val')):
        cx.true(g[0] == d and g[2]['batch_size'] == 7 and tuple(g[2]['target_size']) == (224, 224) and g[2]['class_mode'] == 'categorical', 'images of the %s directory' % d)
        cx.eq(g[1]['rescale'], 0.5, 'scale of the samples')
    cx.true(bool(a[1].get('horizontal_flip', False)) == (0 in flips) and bool(a[1].get('vertical_flip', False)) == (1 in flips), 'flips')
    cx.true(not b[1].get('horizontal_flip', False) and not b[1].get('vertical_flip', False), 'validation images are left as they are')
    n = Layers(3)
    m.freeze_model_layers(n)
    cx.true([x.trainable for x in n.layers] == [False] * 3, 'frozen layers')
    m.unfreeze_model_layers(n)
    cx.true([x.trainable for x in n.layers] == [True] * 3, 'unfrozen layers')
    for f, kind in ((m.load_vgg16_model, 'VGG16'), (m.load_vgg19_model, 'VGG19'), (m.load_resnet50_model, 'ResNet50')):
        cx.true(f('w', include_top=False) == (kind, (), dict(weights='w', include_top=False)), kind)
    base = fakes.Namespace('base', output='out')
    k, args, kw, x = m.create_final_dense_softmax_layer(base, 5, dropout=0.25, dense_connections=9)
    cx.true(k == 'Dense' and 5 in args + tuple(dict(kw).values()) and dict(kw).get('activation') == 'softmax', 'one output per class')
    kinds, x0 = [], x
    while isinstance(x, tuple):
        kinds.append((x[0], x[1]))
        x = x[3]
    cx.true(x == 'out', 'on top of the base model')
    cx.true(('Dropout', (0.25,)) in kinds and ('Dense', (9,)) in kinds, 'layers asked for')
